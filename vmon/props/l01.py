"""L01: histories of payments between wallets over a ledger."""
import hashlib

from vmon import ct, gen, bridge as B
from vmon.rec import expect, same
from vmon.ref import addr as A, codec as C, ec, issuance as I, sighash as SH
from vmon.props.p02 import schnorr

NATIVE = True
TECHNIQUE = 'offline-checkable event history judged online: a validating node written from the consensus rules accepts every transaction, and a ledger model predicts what every wallet must find'
RULE = """Evaluation = one judgement on one transaction of a history: consensus validity by an own node working from the bytes (inputs, signatures over own
digests, balance of curve points, every range and surjection proof, issuances and tokens), what each of three wallets finds in it (its coins with the true
asset, amount and factors; nothing else), the factors reported to the sender, ids, and the totals of all wallets against the ledger model.  Steps: payments to one to
five addresses of ten kinds (confidential or plain), several assets, change, fees; issuances and reissuances (blinded or not) by the holder of the token; burns; collecting
many coins; swaps blinded and signed by two parties in turn; spends by P2PKH, P2SH, P2SH-P2WPKH, P2WPKH, P2WSH and taproot key and script paths.  Distinct = (step, counts
of inputs, outputs and assets, kinds of coins, blinded ones, chain)."""
QUICK = 40
REQUIRED = {'transaction': 400, 'found': 1200, 'not-mine': 1625, 'pay': 150, 'issue': 40, 'reissue': 10, 'burn': 15, 'collect': 15, 'swap': 20, 'blinded': 350,
            'plain': 8, 'dummy': 8, 'totals': 400, 'sig-P2PKH': 60, 'sig-P2SH': 60, 'sig-nested': 60, 'sig-P2WPKH': 60, 'sig-P2WSH': 60, 'sig-taproot': 60, 'sig-tapscript': 60}
THOROUGH_S = 540
KINDS = ('P2PKH', 'P2SH', 'nested', 'P2WPKH', 'P2WSH', 'taproot', 'tapscript')


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def h160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


# ------------------------------------------------------------------------------------------------ the node

class Node:
    """Accepts a transaction if it is valid by the rules of consensus, judged from its bytes alone."""

    def __init__(self, z, genesis):
        self.z, self.genesis = z, genesis
        self.utxo = {}

    def mint(self, r, out):
        txid = r.randbytes(32)
        self.utxo[txid, 0] = dict(out)
        return txid, 0

    def accept(self, raw, rec):
        t = C.r_tx(raw)
        z = self.z
        pts, targets, spent = [], [], []
        winwit, woutwit = C.inwits(t), C.outwits(t)
        seen = set()
        for i, x in enumerate(t['vin']):
            k = (x['hash'], x['n'])
            expect(k in self.utxo and k not in seen, 'node-inputs', 'input %d spends no unspent output' % i)
            seen.add(k)
            o = self.utxo[k]
            spent.append(o)
            g = ct.gen_of_asset(o['asset'])
            pts.append(ct.point_of_value(o['value'], g))
            targets.append(o['asset'])
            q = x['issuance']
            if q is not None and not C.null_issuance(q):
                conf = q['amount'][:1] in (b'\x08', b'\x09')
                if any(q['nonce']):
                    ent = q['entropy']
                    expect(not q['keys'], 'node-reissue', 'a reissuance makes tokens')
                    tok = I.token(ent, conf)
                    want = ec.ser_square(ec.blinded_generator(tok, q['nonce']), 10)
                    same(o['asset'], want, 'node-reissue', 'the input of a reissuance does not hold its token')
                else:
                    ent = I.entropy(x['hash'], x['n'], q['entropy'])
                    tok = I.token(ent, conf)
                a = I.asset(ent)
                for v, what, p in ((q['amount'], a, winwit[i]['amount_proof']), (q['keys'], tok, winwit[i]['keys_proof'])):
                    if v:
                        gg = ec.generator(what)
                        pts.append(ct.point_of_value(v, gg))
                        targets.append(b'\x01' + what)
                        if v[0] != 1:
                            expect(z.range_verify(v, b'\x01' + what, b'', p) is not None, 'node-issuance-proof', 'range proof of an issuance is not valid')
                            rec.ev()
        for j, o in enumerate(t['vout']):
            g = ct.gen_of_asset(o['asset'])
            expect(g is not None and o['value'], 'node-output', 'output %d has no valid asset and value' % j)
            p = ct.point_of_value(o['value'], g)
            if o['value'][0] == 1:
                v = int.from_bytes(o['value'][1:], 'big')
                expect(0 <= v <= ct.MONEY and (v or ct.unspendable(o['script'])), 'node-amount', 'amount of output %d' % j)
            else:
                expect(z.range_verify(o['value'], o['asset'], o['script'], woutwit[j]['range']) is not None, 'node-rangeproof', 'range proof of output %d is not valid' % j)
                rec.ev()
            if o['asset'][0] != 1:
                expect(z.surj_verify(targets, o['asset'], woutwit[j]['surj']), 'node-surjection', 'surjection proof of output %d is not valid' % j)
                rec.ev()
            if p is not None:
                pts.append(ec.neg(p))
        expect(ec.add(*[p for p in pts if p is not None]) is None, 'node-balance', 'the transaction does not balance')
        rec.ev()
        for i in range(len(t['vin'])):
            self.signature(t, i, spent, winwit[i], rec)
        for x in t['vin']:
            del self.utxo[x['hash'], x['n']]
        txid = C.txid(t)
        for j, o in enumerate(t['vout']):
            if not ct.unspendable(o['script']):
                self.utxo[txid, j] = o
        return txid, t

    def signature(self, t, i, spent, w, rec):
        from bitcointx.core.key import CPubKey
        s, ss, stack = spent[i]['script'], t['vin'][i]['script'], [bytes(x) for x in w['stack']]

        def ecdsa(pub, sig, digest):
            expect(sig and CPubKey(pub).verify(digest, sig[:-1]), 'node-signature', 'signature of input %d is not valid' % i)

        def v0(prog, stack):
            if len(prog) == 20:
                sig, pub = stack
                same(h160(pub), prog, 'node-script', 'key of a witness')
                code = b'\x76\xa9\x14' + prog + b'\x88\xac'
                ecdsa(pub, sig, SH.v0(t, code, i, sig[-1], spent[i]['value']))
                return
            same(hashlib.sha256(stack[-1]).digest(), prog, 'node-script', 'witness script')
            self.script(stack[-1], stack[:-1], lambda sig: SH.v0(t, stack[-1], i, sig[-1], spent[i]['value']), ecdsa)
        if s[:3] == b'\x76\xa9\x14':
            sig, pub = pushes(ss)
            same(h160(pub), s[3:23], 'node-script', 'key of an input')
            ecdsa(pub, sig, SH.base(t, s, i, sig[-1]))
            rec.count('sig-P2PKH')
        elif s[:2] == b'\xa9\x14':
            p = pushes(ss)
            same(h160(p[-1]), s[2:22], 'node-script', 'redeem script')
            if p[-1][:2] == b'\x00\x14':
                expect(len(p) == 1, 'node-script', 'data besides the witness program')
                v0(p[-1][2:], stack)
                rec.count('sig-nested')
            else:
                self.script(p[-1], p[:-1], lambda sig: SH.base(t, p[-1], i, sig[-1]), ecdsa)
                rec.count('sig-P2SH')
        elif s[:1] == b'\x00':
            expect(not ss, 'node-script', 'a script with a witness')
            v0(s[2:], stack)
            rec.count('sig-P2WPKH' if len(s) == 22 else 'sig-P2WSH')
        elif s[:2] == b'\x51\x20':
            expect(not ss, 'node-script', 'a script with a witness')
            if len(stack) == 1:
                sig = stack[0]
                ht = sig[64] if len(sig) == 65 else None
                expect(schnorr(SH.taproot(t, i, spent, ht, self.genesis), sig[:64], s[2:]), 'node-signature', 'taproot signature of input %d is not valid' % i)
                rec.count('sig-taproot')
            else:
                sig, code, ctl = stack
                leaf = SH.leaf_hash(code, ctl[0] & 0xfe)
                k = leaf
                for y in range(33, len(ctl), 32):
                    k = SH.branch_hash(k, ctl[y:y + 32])
                tw = SH.tagged(b'TapTweak/elements', ctl[1:33] + k)
                q = ec.add(ec.lift_x(ctl[1:33]), ec.mul(int.from_bytes(tw, 'big')))
                same((ec.ser_x(q), q[1] & 1), (s[2:], ctl[0] & 1), 'node-script', 'control block')
                ht = sig[64] if len(sig) == 65 else None
                expect(code[:1] == b'\x20' and code[33:] == b'\xac', 'node-script', 'script of a leaf')
                expect(schnorr(SH.taproot(t, i, spent, ht, self.genesis, leaf=leaf), sig[:64], code[1:33]), 'node-signature', 'tapscript signature of input %d is not valid' % i)
                rec.count('sig-tapscript')
        else:
            expect(False, 'node-script', 'unknown script')
        rec.ev()

    def script(self, code, data, digest, ecdsa):
        """<key> CHECKSIG or 2 <key> <key> 2 CHECKMULTISIG"""
        if code[:1] == b'\x52':
            expect(len(data) == 3 and not data[0], 'node-script', 'data of a multisignature')
            ecdsa(code[2:35], data[1], digest(data[1]))
            ecdsa(code[36:69], data[2], digest(data[2]))
        else:
            expect(len(data) == 1, 'node-script', 'data of a signature')
            ecdsa(code[1:34], data[0], digest(data[0]))


def pushes(s):
    return [b'' if op == 0 else d for op, d, _, _ in SH.ops(s)]


# ------------------------------------------------------------------------------------------------ wallets

class Wallet:
    """The code under test does everything here: keys, addresses, blinding keys, unblinding, signing."""

    def __init__(self, r, name, chain):
        from bitcointx.core.key import CKey
        from bitcointx.wallet import CCoinExtKey
        self.name, self.chain, self.r = name, chain, r
        self.ext = CCoinExtKey.from_seed(r.randbytes(32))
        self.master = CKey(r.randbytes(32))
        self.scripts = {}
        self.coins = {}

    def address(self, confidential):
        """a new address as text, as it would be told to the payer"""
        from bitcointx.wallet import P2PKHCoinAddress, P2SHCoinAddress, P2WPKHCoinAddress, P2WSHCoinAddress, P2TRCoinAddress
        from bitcointx.core.script import OP_CHECKSIG, OP_CHECKMULTISIG, TaprootScriptTree, CScript
        from elementstx.wallet import CCoinConfidentialAddress
        from elementstx.core.script import CElementsScript as S
        r = self.r
        k = self.ext.derive_path('m/%d' % len(self.scripts)).priv
        k2 = self.ext.derive_path("m/1'/%d" % len(self.scripts)).priv
        kind = r.choice(KINDS)
        more = None
        if kind == 'P2PKH':
            a = P2PKHCoinAddress.from_pubkey(k.pub)
        elif kind == 'P2WPKH':
            a = P2WPKHCoinAddress.from_pubkey(k.pub)
        elif kind == 'nested':
            more = P2WPKHCoinAddress.from_pubkey(k.pub).to_scriptPubKey()
            a = P2SHCoinAddress.from_redeemScript(more)
        elif kind in ('P2SH', 'P2WSH'):
            more = S([k.pub, OP_CHECKSIG]) if r.random() < .5 else S([2, k.pub, k2.pub, 2, OP_CHECKMULTISIG])
            a = (P2SHCoinAddress if kind == 'P2SH' else P2WSHCoinAddress).from_redeemScript(more)
        elif kind == 'taproot':
            a = P2TRCoinAddress.from_pubkey(k.pub)
        else:
            leaves = [CScript([x.xonly_pub, OP_CHECKSIG], name=n) for n, x in (('a', k), ('b', k2))] + [CScript([OP_CHECKSIG], name='c')]
            more = TaprootScriptTree(leaves[:r.choice((1, 2, 3))], internal_pubkey=k2.xonly_pub)
            a = P2TRCoinAddress.from_script_tree(more)
        spk = a.to_scriptPubKey()
        bkey = spk.derive_blinding_key(self.master)
        self.scripts[bytes(spk)] = (kind, k, k2, more)
        if confidential:
            a = CCoinConfidentialAddress.from_unconfidential(a, bkey.pub)
        return str(a)

    def scan(self, raw, rec):
        """coins found in a transaction read from bytes"""
        from bitcointx.core import CTransaction
        tx = CTransaction.deserialize(raw)
        found = {}
        for j, o in enumerate(tx.vout):
            mine = bytes(o.scriptPubKey) in self.scripts
            if o.nValue.is_explicit():
                if mine:
                    found[j] = {'asset': bytes(o.nAsset.to_asset().data), 'amount': o.nValue.to_amount(), 'bf': bytes(32), 'abf': bytes(32)}
                continue
            un = o.unblind_confidential_pair(o.scriptPubKey.derive_blinding_key(self.master), tx.wit.vtxoutwit[j].rangeproof)
            if un.ok:
                expect(mine, 'foreign-coin', 'a wallet unblinded an output for another')
                found[j] = {'asset': bytes(un.asset.data), 'amount': un.amount, 'bf': bytes(un.blinding_factor.data), 'abf': bytes(un.asset_blinding_factor.data)}
                same(bytes(un.get_descriptor().asset.data) if hasattr(un, 'get_descriptor') else found[j]['asset'], found[j]['asset'], 'descriptor', 'descriptor of a result')
            elif not mine:
                rec.count('not-mine')
        txid = bytes(tx.GetTxid())
        for i in tx.vin:
            self.coins.pop((bytes(i.prevout.hash), i.prevout.n), None)
        for j, c in found.items():
            self.coins[txid, j] = c
        return found, txid

    def sign(self, tx, i, spent, genesis):
        """put signature data of input i in place"""
        from bitcointx.core.script import CScriptWitness, SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGHASH_Type, SIGHASH_ALL
        from elementstx.core.script import ElementsSignatureHashSchnorr, CElementsScript as S
        from bitcointx.wallet import CCoinAddress
        core = B.L()
        r = self.r
        o = spent[i]
        kind, k, k2, more = self.scripts[bytes(o.scriptPubKey)]
        ht = SIGHASH_Type(r.choice((1, 1, 1, 0x81)))
        sig, wit = S(b''), []

        def multi(code, ver):
            h = code.sighash(tx, i, ht, amount=o.nValue, sigversion=ver)
            if bytes(code[:1]) == b'\x52':
                return [b'', k.sign(h) + bytes([ht]), k2.sign(h) + bytes([ht])]
            return [k.sign(h) + bytes([ht])]
        if kind == 'P2PKH':
            h = o.scriptPubKey.sighash(tx, i, ht)
            sig = S([k.sign(h) + bytes([ht]), k.pub])
        elif kind in ('P2WPKH', 'nested'):
            spk = more if kind == 'nested' else o.scriptPubKey
            code = CCoinAddress.from_scriptPubKey(spk).to_redeemScript()
            h = code.sighash(tx, i, ht, amount=o.nValue, sigversion=SIGVERSION_WITNESS_V0)
            wit = [k.sign(h) + bytes([ht]), k.pub]
            if kind == 'nested':
                sig = S([bytes(more)])
        elif kind == 'P2SH':
            sig = S([x if x else 0 for x in multi(more, SIGVERSION_BASE)] + [bytes(more)])
        elif kind == 'P2WSH':
            wit = multi(more, SIGVERSION_WITNESS_V0) + [bytes(more)]
        elif kind == 'taproot':
            t = None if r.random() < .5 else ht
            h = ElementsSignatureHashSchnorr(tx, i, spent, hashtype=t, genesis_block_hash=genesis)
            wit = [k.sign_schnorr_tweaked(h) + (b'' if t is None else bytes([t]))]
        else:
            t = None if r.random() < .5 else ht
            code, ctl = more.get_script_with_control_block('a')
            h = code.sighash_schnorr(tx, i, spent, hashtype=t, genesis_block_hash=genesis)
            wit = [k.sign_schnorr_no_tweak(h) + (b'' if t is None else bytes([t])), code, ctl]
        tx.vin[i].scriptSig = sig
        while len(tx.wit.vtxinwit) < len(tx.vin):
            tx.wit.vtxinwit.append(core.CElementsMutableTxInWitness())
        old = tx.wit.vtxinwit[i]
        tx.wit.vtxinwit[i] = core.CElementsTxInWitness(CScriptWitness([bytes(x) for x in wit]), old.issuanceAmountRangeproof, old.inflationKeysRangeproof,
                                                       old.pegin_witness).to_mutable()


# ------------------------------------------------------------------------------------------------ the world

class World:
    def __init__(self, ctx, chain):
        r = ctx.rng
        self.ctx, self.r, self.rec = ctx, r, ctx.rec
        self.chain = chain
        self.genesis = r.randbytes(32)
        self.node = Node(ctx.data['z'], self.genesis)
        self.wallets = [Wallet(r, n, self.chain) for n in 'abc']
        self.policy = r.randbytes(32)
        self.truth = {w.name: {} for w in self.wallets}
        self.tokens = {}
        for w in self.wallets:
            for _ in range(3):
                from bitcointx.wallet import CCoinAddress
                spk = bytes(CCoinAddress(w.address(False)).to_scriptPubKey())
                v = r.randrange(10 ** 6, 10 ** 12)
                k = self.node.mint(r, {'asset': b'\x01' + self.policy, 'value': ct.val(v), 'nonce': b'', 'script': spk})
                c = {'asset': self.policy, 'amount': v, 'bf': bytes(32), 'abf': bytes(32)}
                w.coins[k] = c
                self.truth[w.name][k] = c

    def pick(self, w, n, must=None):
        """coins to spend: at least one of the policy asset, to pay the fee"""
        r = self.r
        pol = [k for k, c in w.coins.items() if c['asset'] == self.policy and c['amount'] > 2000]
        if not pol:
            return None
        ks = [must] if must else []
        if not must or w.coins[must]['asset'] != self.policy or w.coins[must]['amount'] <= 2000:
            ks.append(r.choice(pol))
        rest = [k for k in w.coins if k not in ks]
        r.shuffle(rest)
        ks += rest[:max(0, n - len(ks))]
        r.shuffle(ks)
        return ks

    def txin(self, k):
        from bitcointx.core import COutPoint, CTxIn
        return CTxIn(COutPoint(k[0], k[1]), nSequence=self.r.choice((0xffffffff, 0xfffffffe, 0xfffffffd)))

    def divide(self, w, have, fee, others, burn=False):
        """outputs [(recipient, asset, amount)] that use up what is there"""
        r = self.r
        outs = []
        for a, v in have.items():
            left = v
            if a == self.policy:
                left -= fee
                outs.append((None, a, fee))
            if burn and left > 1 and r.random() < .5:
                b = r.randrange(1, left)
                outs.append(('burn', a, b))
                left -= b
            for o in others:
                if left > 1 and r.random() < .6:
                    x = r.randrange(1, left)
                    outs.append((o, a, x))
                    left -= x
            if left:
                outs.append((w, a, left))
        return outs

    def build(self, outs, confidential):
        """outputs paying to addresses that the recipients tell as text; returns (outputs, keys, owner of each)"""
        from bitcointx.core import CTxOut
        from bitcointx.core.key import CPubKey
        from bitcointx.wallet import CCoinAddress
        from elementstx.wallet import CCoinConfidentialAddress
        from bitcointx.core.script import OP_RETURN
        from elementstx.core.script import CElementsScript as S
        core = B.L()
        r = self.r
        vout, keys, owner = [], [], []
        outs = list(outs)
        r.shuffle(outs)
        for who, a, v in outs:
            kw = dict(nValue=core.CConfidentialValue(v), nAsset=core.CConfidentialAsset(core.CAsset(a)))
            if who is None:
                vout.append(core.CElementsTxOut(**kw))
                expect(vout[-1].is_fee(), 'fee', 'a fee output is not one')
                keys.append(CPubKey())
                owner.append(None)
                continue
            if who == 'burn':
                vout.append(core.CElementsTxOut(scriptPubKey=S([OP_RETURN]), **kw))
                keys.append(CPubKey())
                owner.append(None)
                continue
            text = who.address(r.random() < confidential)
            addr = CCoinAddress(text)
            vout.append(CTxOut(scriptPubKey=addr.to_scriptPubKey(), **kw))
            keys.append(addr.blinding_pubkey if isinstance(addr, CCoinConfidentialAddress) else CPubKey())
            owner.append((who.name, a, v))
        return vout, keys, owner

    def descriptors(self, w, ks):
        core = B.L()
        null = {'asset': bytes(32), 'amount': -1, 'bf': bytes(32), 'abf': bytes(32)}
        return ct.descriptors([w.coins.get(k, null) for k in ks])

    def finish(self, tx, ks, owner, signers, step, res=None, blinded=0):
        """sign, publish, and compare what everyone finds with the truth"""
        core = B.L()
        rec, r = self.rec, self.r
        spent = [B.lib_out(self.node.utxo[k]) for k in ks]
        order = list(range(len(ks)))
        r.shuffle(order)
        for i in order:
            signers[i].sign(tx, i, spent, self.genesis)
        if r.random() < .5:
            tx = tx.to_immutable()
        raw = tx.serialize()
        txid, t = self.node.accept(raw, rec)
        same(bytes(tx.GetTxid()), txid, 'txid', 'transaction id')
        rec.count('transaction')
        rec.count(step)
        rec.count('blinded' if blinded else 'plain')
        true = {}
        for j, o in enumerate(owner):
            if o is not None:
                true.setdefault(o[0], {})[j] = (o[1], o[2])
        total = 0
        for w in self.wallets:
            found, tid = w.scan(raw, rec)
            same(tid, txid, 'txid', 'transaction id seen by a wallet')
            same({j: (c['asset'], c['amount']) for j, c in found.items()}, true.get(w.name, {}), 'found', 'wallet %s does not find its coins' % w.name)
            for k in ks:
                self.truth[w.name].pop(k, None)
            for j, c in found.items():
                g = ec.blinded_generator(c['asset'], c['abf'])
                o = t['vout'][j]
                if o['value'][0] != 1:
                    same((ec.ser_square(g, 10), ec.ser_square(ec.commitment(c['amount'], g, c['bf']), 8)), (o['asset'], o['value']), 'opening', 'factors found by a wallet')
                    rec.ev()
                if res is not None and o['value'][0] != 1 and res[j] is not None:
                    same((c['bf'], c['abf']), res[j], 'sender', 'sender and recipient have other factors')
                    rec.ev()
                self.truth[w.name][txid, j] = c
                rec.count('found')
            same(set(w.coins), set(self.truth[w.name]), 'coins', 'coins of wallet %s' % w.name)
            sums = {}
            for c in w.coins.values():
                sums[c['asset']] = sums.get(c['asset'], 0) + c['amount']
            want = {}
            for c in self.truth[w.name].values():
                want[c['asset']] = want.get(c['asset'], 0) + c['amount']
            same(sums, want, 'totals', 'totals of wallet %s' % w.name)
            rec.ev(4)
            rec.count('totals')
            total += len(found)
        same(total, len([o for o in owner if o is not None]), 'coins', 'number of coins found')
        kinds = sorted({s.scripts[bytes(o.scriptPubKey)][0] for s, o in zip(signers, spent)})
        rec.feat(step, min(len(ks), 6), min(len(owner), 8), tuple(kinds)[:3], blinded > 0, self.chain)
        return txid

    def blind(self, tx, w, ks, keys, **kw):
        from bitcointx.core.key import CPubKey
        core = B.L()
        r = self.r
        bits = r.choice((3, 4, 8, 8, 16, None))
        if bits:
            kw['custom_ct_bits'] = bits
        if r.random() < .3:
            kw['custom_ct_exponent'] = 0
        res = tx.blind(input_descriptors=self.descriptors(w, ks), output_pubkeys=keys, **kw)
        expect(res.ok, 'blind', 'blinding was refused: %s' % res.error)
        return res

    def balance_up(self, w, ks, vout, keys, owner, more=0):
        """the numbers of blinded parts that can be balanced"""
        from bitcointx.core.key import CKey
        from bitcointx.core.script import OP_RETURN
        from elementstx.core.script import CElementsScript as S
        core = B.L()
        r = self.r
        secret = any(any(w.coins[k]['bf']) or any(w.coins[k]['abf']) for k in ks if k in w.coins) or more
        n = sum(len(k) > 0 for k in keys)
        if (secret and n == 0) or (not secret and n == 1):
            vout.append(core.CElementsMutableTxOut(nValue=core.CConfidentialValue(0), nAsset=core.CConfidentialAsset(core.CAsset(w.coins[ks[0]]['asset'])),
                                                   scriptPubKey=S([OP_RETURN])))
            keys.append(CKey(r.randbytes(32)).pub)
            owner.append(None)
            self.rec.count('dummy')
        return sum(len(k) > 0 for k in keys)

    def tx(self, ks, vout):
        from bitcointx.core import CTransaction
        r = self.r
        t = CTransaction(vin=[self.txin(k) for k in ks], vout=vout, nLockTime=r.choice((0, 0, 100, 500000001)), nVersion=2)
        expect(isinstance(t, B.L().CElementsTransaction), 'class', 'class of a transaction')
        return t.to_mutable()

    def have(self, w, ks):
        h = {}
        for k in ks:
            c = w.coins[k]
            h[c['asset']] = h.get(c['asset'], 0) + c['amount']
        return h

    def factors(self, res, n):
        return [(bytes(a.data), bytes(b.data)) for a, b in zip(res.blinding_factors, res.asset_blinding_factors)][:n]

    # steps

    def pay(self, step='pay'):
        r = self.r
        w = r.choice(self.wallets)
        ks = self.pick(w, r.choice((1, 1, 2, 3)) if step != 'collect' else r.choice((6, 9, 12)))
        if ks is None:
            return
        others = [r.choice(self.wallets) for _ in range(r.choice((1, 1, 2, 4)))] if step == 'pay' else []
        outs = self.divide(w, self.have(w, ks), r.randrange(1, 1000), others, burn=step == 'burn')
        vout, keys, owner = self.build(outs, r.choice((0, .5, .8, 1, 1)))
        n = self.balance_up(w, ks, vout, keys, owner)
        tx = self.tx(ks, vout)
        res = None
        if n or r.random() < .5:
            res = self.blind(tx, w, ks, keys)
            same(res.num_successfully_blinded, n, 'count', 'number of blinded outputs')
            res = self.factors(res, len(owner)) if n else None
        self.finish(tx, ks, owner, [w] * len(ks), step, res, n)

    def issue(self):
        from bitcointx.core.key import CKey
        from bitcointx.core import Uint256
        core = B.L()
        r = self.r
        w = r.choice(self.wallets)
        again = [(k, self.tokens[c['asset']]) for k, c in w.coins.items() if c['asset'] in self.tokens and any(c['abf'])]
        re = again and r.random() < .6
        amt = r.randrange(1, 10 ** 10)
        if re:
            tk, (ent, conf) = r.choice(again)
            ks = self.pick(w, r.choice((1, 2, 3)), tk)
            if ks is None:
                return
            i = ks.index(tk)
            iss = core.CAssetIssuance(Uint256(w.coins[tk]['abf']), Uint256(ent), core.CConfidentialValue(amt))
            made = {I.asset(ent): amt}
        else:
            ks = self.pick(w, r.choice((1, 2)))
            if ks is None:
                return
            i = r.randrange(len(ks))
            con = r.randbytes(32)
            conf = r.random() < .5
            tok = r.choice((1, 2, 1000))
            iss = core.CAssetIssuance(Uint256(), Uint256(con), core.CConfidentialValue(amt), core.CConfidentialValue(tok))
            ent = I.entropy(ks[i][0], ks[i][1], con)
            got = bytes(core.generate_asset_entropy(core.CElementsOutPoint(*ks[i]), Uint256(con)).data)
            same(got, ent, 'entropy', 'entropy of an issuance')
            t = I.token(ent, conf)
            made = {bytes(core.calculate_asset(Uint256(got)).data): amt, bytes(core.calculate_reissuance_token(Uint256(got), conf).data): tok}
            same(made, {I.asset(ent): amt, t: tok}, 'issued', 'assets of an issuance')
            self.tokens[t] = (ent, conf)
        have = self.have(w, ks)
        fee = r.randrange(1, 1000)
        outs = self.divide(w, have, fee, [])
        for a, v in made.items():
            if v > 1 and r.random() < .5:
                x = r.randrange(1, v)
                outs += [(w, a, x), (r.choice(self.wallets), a, v - x)]
            else:
                outs.append((w, a, v))
        vout, keys, owner = self.build(outs, 1 if r.random() < .7 else .7)
        self.balance_up(w, ks, vout, keys, owner, conf)
        n = sum(len(k) > 0 for k in keys)
        if not n:
            return
        tx = self.tx(ks, vout)
        tx.vin[i].assetIssuance = iss
        ia, it = [None] * len(ks), [None] * len(ks)
        if conf:
            ia[i] = CKey(r.randbytes(32))
            if not re:
                it[i] = CKey(r.randbytes(32))
        res = self.blind(tx, w, ks, keys, blind_issuance_asset_keys=ia, blind_issuance_token_keys=it)
        same(res.num_successfully_blinded, n + (conf and (1 if re else 2)), 'count', 'number of blinded parts')
        self.finish(tx, ks, owner, [w] * len(ks), 'reissue' if re else 'issue', self.factors(res, len(owner)), n)

    def swap(self):
        """two wallets pay each other in one transaction that they blind and sign in turn"""
        core = B.L()
        r = self.r
        a, b = r.sample(self.wallets, 2)
        ka, kb = self.pick(a, r.choice((1, 2))), self.pick(b, r.choice((1, 2)))
        if ka is None or kb is None:
            return
        oa = self.divide(a, self.have(a, ka), r.randrange(1, 500), [b])
        ob = self.divide(b, self.have(b, kb), r.randrange(1, 500), [a])
        pa, pb = self.build(oa, 1), self.build(ob, 1)
        for w, ks, p in ((a, ka, pa), (b, kb, pb)):
            self.balance_up(w, ks, *p)
            if not any(len(k) for k in p[1]):
                return
        order = [('a', i) for i in range(len(ka))] + [('b', i) for i in range(len(kb))]
        r.shuffle(order)
        ks = [(ka if w == 'a' else kb)[i] for w, i in order]
        oorder = [('a', j) for j in range(len(pa[0]))] + [('b', j) for j in range(len(pb[0]))]
        r.shuffle(oorder)
        from bitcointx.core.key import CPubKey
        vout = [(pa if w == 'a' else pb)[0][j] for w, j in oorder]
        owner = [(pa if w == 'a' else pb)[2][j] for w, j in oorder]
        tx = self.tx(ks, vout)
        aux = []
        for k in ks:
            f = self.node.utxo[k]['asset']
            aux.append(f if f[0] != 1 else core.CAsset(f[1:]).to_commitment())
        total = [None] * len(owner)
        first = r.choice('ab')
        for who in (first, 'b' if first == 'a' else 'a'):
            w = a if who == 'a' else b
            mine = [k if x == who else ('other', 0) for k, (x, _) in zip(ks, order)]
            keys = [(pa if x == 'a' else pb)[1][j] if x == who else CPubKey() for x, j in oorder]
            res = self.blind(tx, w, mine, keys, auxiliary_generators=aux)
            f = self.factors(res, len(owner))
            for j, k in enumerate(keys):
                if len(k):
                    total[j] = f[j]
            # it goes to the other party as bytes
            tx = core.CElementsMutableTransaction.deserialize(tx.serialize())
        self.finish(tx, ks, owner, [a if x == 'a' else b for x, _ in order], 'swap', total, 1)


def episode(ctx):
    from bitcointx import ChainParams
    r = ctx.rng
    chain = r.choice(('elements', 'elements/liquidv1'))
    with ChainParams(chain):
        w = World(ctx, chain)
        for _ in range(14):
            k = r.random()
            if k < .45:
                w.pay()
            elif k < .7:
                w.issue()
            elif k < .78:
                w.pay('burn')
            elif k < .86:
                w.pay('collect')
            else:
                w.swap()
    ctx.rec.sample(coins=sum(len(x.coins) for x in w.wallets), assets=len({c['asset'] for x in w.wallets for c in x.coins.values()}))


DIRECTED = []
