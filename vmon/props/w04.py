"""W04: immutability and conversions, as a history monitor.

A pool of live objects, each with a model; models share structure exactly where the objects are documented to share (the parts of a
mutable object), so after every operation the whole pool can be compared with its models."""
import copy

from vmon import gen, bridge as B
from vmon.rec import same, expect
from vmon.ref import codec as C

TECHNIQUE = 'history monitor: pool of live objects against alias-tracking models, compared after every operation'
RULE = """Evaluation = one live object compared with its model (or with its frozen snapshot if immutable) after an operation of a random
history of constructions, conversions, clones, edits, part extractions and refused assignments.  Distinct = (operation, object kind,
mutability of source, mutability of result)."""
QUICK = 1200
REQUIRED = {'ops': 8000, 'edit': 2500, 'convert': 1500, 'refused-assign': 1500, 'extract': 1000, 'construct': 1500, 'source-edit': 800}

FIELDS = {'tx': ('nVersion', 'nLockTime', 'vin', 'vout', 'wit'), 'in': ('prevout', 'scriptSig', 'nSequence', 'assetIssuance', 'is_pegin'),
          'out': ('nValue', 'scriptPubKey', 'nAsset', 'nNonce'), 'wit': ('vtxinwit', 'vtxoutwit'),
          'inwit': ('scriptWitness', 'issuanceAmountRangeproof', 'inflationKeysRangeproof', 'pegin_witness'),
          'outwit': ('surjectionproof', 'rangeproof'), 'point': ('hash', 'n')}


def classes():
    c = B.L()
    return {'tx': (c.CElementsTransaction, c.CElementsMutableTransaction), 'in': (c.CElementsTxIn, c.CElementsMutableTxIn),
            'out': (c.CElementsTxOut, c.CElementsMutableTxOut), 'wit': (c.CElementsTxWitness, c.CElementsMutableTxWitness),
            'inwit': (c.CElementsTxInWitness, c.CElementsMutableTxInWitness),
            'outwit': (c.CElementsTxOutWitness, c.CElementsMutableTxOutWitness), 'point': (c.CElementsOutPoint, c.CElementsMutableOutPoint)}


def m_wit(w):
    return {'winwit': [B.m_inwit(x) for x in w.vtxinwit], 'woutwit': [B.m_outwit(x) for x in w.vtxoutwit]}


def observe(kind, o):
    if kind == 'tx':
        return B.m_tx(o)
    if kind == 'wit':
        return m_wit(o)
    if kind == 'point':
        return {'hash': bytes(o.hash), 'n': o.n}
    return {'in': B.m_in, 'out': B.m_out, 'inwit': B.m_inwit, 'outwit': B.m_outwit}[kind](o)


def canon(kind, m):
    """the model of one kind, with absent and null forms made the same"""
    def iss(i):
        i = dict(i)
        if i['issuance'] is None:
            i['issuance'] = {'nonce': bytes(32), 'entropy': bytes(32), 'amount': b'', 'keys': b''}
        return i
    def strip(v, null):
        v = list(v or [])
        while v and null(v[-1]):
            v.pop()
        return v
    if kind == 'tx':        # null witnesses may be filled in or left out
        return {'version': m['version'], 'locktime': m['locktime'], 'vin': [iss(i) for i in m['vin']], 'vout': m['vout'],
                'winwit': strip(m['winwit'], C.inwit_null), 'woutwit': strip(m['woutwit'], C.outwit_null)}
    if kind == 'wit':
        return {'winwit': m['winwit'] or [], 'woutwit': m['woutwit'] or []}
    if kind == 'in':
        return iss(m)
    if kind == 'point':
        return {'hash': m['hash'], 'n': m['n']}
    return m


def kinds_of_parts(kind, o, m):
    """(kind, object, model) for every part"""
    if kind == 'tx':
        for i, x in enumerate(o.vin):
            yield 'in', x, m['vin'][i]
        for i, x in enumerate(o.vout):
            yield 'out', x, m['vout'][i]
        yield 'wit', o.wit, m
    if kind == 'wit':
        for i, x in enumerate(o.vtxinwit):
            yield 'inwit', x, m['winwit'][i]
        for i, x in enumerate(o.vtxoutwit):
            yield 'outwit', x, m['woutwit'][i]
    if kind == 'in':
        yield 'point', o.prevout, m


class Pool:
    def __init__(self, ctx):
        self.ctx, self.r, self.rec = ctx, ctx.rng, ctx.rec
        self.items = []
        self.cls = classes()
        self.trail = []

    def log(self, *a):
        self.trail.append(' '.join(map(str, a)))
        self.rec.count('ops')

    def add(self, kind, o, m, why):
        mutable = o.is_mutable()
        cls = self.cls[kind][mutable]
        expect(type(o) is cls, 'class', '%s gave %s instead of %s' % (why, type(o).__name__, cls.__name__), trail=self.trail)
        if kind == 'tx' and why != 'construct':
            same(canon(kind, observe(kind, o)), canon(kind, m), 'contents', 'contents differ after %s of a %s' % (why, kind), trail=self.trail)
            m = B.m_tx(o)
        if not mutable:
            m = copy.deepcopy(m)
        e = {'kind': kind, 'o': o, 'm': m, 'mutable': mutable}
        if not mutable:
            e['sane'] = kind not in ('in', 'tx') or self.sane(kind, m)
            if e['sane']:
                e['ser'] = o.serialize()
                e['hash'] = hash(o)
            e['canon'] = copy.deepcopy(canon(kind, m))
        same(canon(kind, observe(kind, o)), canon(kind, m), 'contents', 'contents differ after %s of a %s' % (why, kind), trail=self.trail)
        self.items.append(e)
        if len(self.items) > 26:
            self.items.pop(self.r.randrange(len(self.items)))
        return e

    def check(self, op):
        for e in self.items:
            got = canon(e['kind'], observe(e['kind'], e['o']))
            if e['mutable']:
                same(got, canon(e['kind'], e['m']), 'mutable-differs', 'a mutable %s does not hold what was put in it after %s' % (e['kind'], op),
                     trail=self.trail)
            else:
                same(got, e['canon'], 'immutable-changed', 'an immutable %s changed after %s' % (e['kind'], op), trail=self.trail)
                if e['sane'] and self.r.random() < .1:
                    same(e['o'].serialize(), e['ser'], 'immutable-bytes', 'the bytes of an immutable %s changed after %s' % (e['kind'], op), trail=self.trail)
                    same(hash(e['o']), e['hash'], 'immutable-hash', 'hash() of an immutable %s changed after %s' % (e['kind'], op), trail=self.trail)
            self.rec.ev()

    # ---- operations -----------------------------------------------------------------------------------------------------------
    def construct(self):
        """from fresh parts, mutable or not, in lists and bytearrays which are then changed"""
        r = self.r
        kind = r.choice(('tx', 'tx', 'in', 'out', 'inwit', 'outwit', 'wit', 'point'))
        mutable = r.random() < .5
        pm = r.random() < .5
        cls = self.cls[kind][mutable]
        m = None
        if kind == 'tx':
            m = gen.tx(r, many=0)
            m['vin'], m['vout'] = m['vin'][:3], m['vout'][:3]
            if m['winwit'] is not None:
                m['winwit'], m['woutwit'] = m['winwit'][:len(m['vin'])], m['woutwit'][:len(m['vout'])]
            vin = [B.lib_in(i, pm) for i in m['vin']]
            vout = [B.lib_out(o, pm) for o in m['vout']]
            wit = None
            wi, wo = [], []
            if C.has_witness(m):
                wi = [B.lib_inwit(w, pm) for w in m['winwit']]
                wo = [B.lib_outwit(w, pm) for w in m['woutwit']]
                wit = self.cls['wit'][pm](wi, wo)
            else:
                m['winwit'] = m['woutwit'] = None
            o = cls(vin, vout, m['locktime'], m['version'], wit)
            got = B.m_tx(o)
            same(C.norm(got), C.norm(m), 'construct', 'a transaction does not hold what it was made of', model=m)
            m = got
            self.add(kind, o, m, 'construct')
            # sources change
            if vin:
                vin.pop()
            if vout:
                vout.reverse()
            for p in vin + vout + wi + wo + ([wit] if wit is not None else []):
                if p.is_mutable():
                    self.spoil(p)
        elif kind == 'in':
            m = gen.txin(r)
            sc = bytearray(m['script'])
            op = self.cls['point'][pm](m['hash'], m['n'])
            iss = B.lib_issuance(m['issuance'])
            o = cls(op, B.lib_script(bytes(sc)), m['seq'], iss, m['pegin'])
            self.add(kind, o, m, 'construct')
            if pm:
                self.spoil(op)
        elif kind == 'out':
            m = gen.txout(r)
            bufs = [bytearray(m[k]) for k in ('value', 'asset', 'nonce', 'script')]
            c = B.L()
            o = cls(c.CConfidentialValue(bufs[0]), B.lib_script(bufs[3]), c.CConfidentialAsset(bufs[1]), c.CConfidentialNonce(bufs[2]))
            self.add(kind, o, m, 'construct')
            for b in bufs:
                for k in range(len(b)):
                    b[k] ^= 0x55
        elif kind == 'inwit':
            from bitcointx.core.script import CScriptWitness
            m = copy.deepcopy(gen.inwit(r))
            st, ps = list(m['stack']), list(m['pegin_stack'])
            a, k = bytearray(m['amount_proof']), bytearray(m['keys_proof'])
            o = cls(CScriptWitness(st), a, k, CScriptWitness(ps))
            self.add(kind, o, m, 'construct')
            st.append(b'late')
            ps.insert(0, b'late')
            a += b'late'
            k.reverse()
        elif kind == 'outwit':
            m = dict(gen.outwit(r))
            a, k = bytearray(m['surj']), bytearray(m['range'])
            o = cls(a, k)
            self.add(kind, o, m, 'construct')
            a += b'late'
            k += b'late'
        elif kind == 'wit':
            m = {'winwit': [copy.deepcopy(gen.inwit(r)) for _ in range(r.randrange(3))], 'woutwit': [dict(gen.outwit(r)) for _ in range(r.randrange(3))]}
            wi = [B.lib_inwit(w, pm) for w in m['winwit']]
            wo = [B.lib_outwit(w, pm) for w in m['woutwit']]
            o = cls(wi, wo)
            self.add(kind, o, m, 'construct')
            for p in wi + wo:
                if p.is_mutable():
                    self.spoil(p)
            wi.append(None)
            wo.clear()
        else:
            m = {'hash': gen.h32(r), 'n': gen.u32(r)}
            self.add(kind, cls(m['hash'], m['n']), m, 'construct')
        self.log('construct', kind, 'mutable' if mutable else 'immutable', 'from mutable parts' if pm else '')
        self.rec.count('construct')
        self.rec.count('source-edit')
        self.rec.feat('construct', kind, mutable, pm)

    def spoil(self, p):
        """change every field of a mutable part that was given to a constructor"""
        c = B.L()
        t = type(p)
        if t is self.cls['in'][1]:
            p.nSequence ^= 1
            p.prevout.n ^= 1
            p.scriptSig = B.lib_script(b'\x51\x51')
            p.is_pegin = not p.is_pegin
            p.assetIssuance = c.CAssetIssuance(nAmount=c.CConfidentialValue(424242))
        elif t is self.cls['out'][1]:
            p.nValue = c.CConfidentialValue(31337)
            p.nAsset = c.CConfidentialAsset(c.CAsset(b'\x77' * 32))
            p.nNonce = c.CConfidentialNonce(b'\x02' + b'\x44' * 32)
            p.scriptPubKey = B.lib_script(b'\x52\x52')
        elif t is self.cls['inwit'][1]:
            p.issuanceAmountRangeproof = b'spoiled'
            p.inflationKeysRangeproof = b'spoiled'
        elif t is self.cls['outwit'][1]:
            p.surjectionproof = p.rangeproof = b'spoiled'
        elif t is self.cls['wit'][1]:
            p.vtxinwit.append(self.cls['inwit'][1](issuanceAmountRangeproof=b'x'))
            p.vtxoutwit.clear()
        elif t is self.cls['point'][1]:
            p.n = 4242
            p.hash = b'\x99' * 32

    def convert(self):
        r = self.r
        e = r.choice(self.items)
        kind, o = e['kind'], e['o']
        im, mu = self.cls[kind]
        how = r.choice(('to_mutable', 'to_immutable', 'clone', 'from_instance-mutable', 'from_instance-immutable', 'rebuild', 'deserialize'))
        if how in ('to_mutable', 'to_immutable', 'clone'):
            n = getattr(o, how)()
            want = {'to_mutable': True, 'to_immutable': False, 'clone': e['mutable']}[how]
        elif how.startswith('from'):
            want = how.endswith('-mutable')
            n = (mu if want else im).from_instance(o)
        elif how == 'deserialize':
            if kind == 'wit' or kind in ('in', 'tx') and not self.sane(kind, e['m']):
                return
            want = r.random() < .5
            n = (mu if want else im).deserialize(o.serialize())
            if kind == 'tx':       # null witnesses are filled in
                same(C.norm(B.m_tx(n)), C.norm(e['m']), 'reread', 'a transaction differs after writing and reading', trail=self.trail)
                self.add(kind, n, B.m_tx(n), how)
                return
            if kind == 'in' and e['m']['issuance'] is not None and C.null_issuance(e['m']['issuance']):
                return
        else:
            want = r.random() < .5
            cls = mu if want else im
            if kind == 'tx':
                n = cls(o.vin, o.vout, o.nLockTime, o.nVersion, o.wit)
            elif kind == 'in':
                n = cls(o.prevout, o.scriptSig, o.nSequence, o.assetIssuance, o.is_pegin)
            elif kind == 'out':
                n = cls(o.nValue, o.scriptPubKey, o.nAsset, o.nNonce)
            elif kind == 'wit':
                n = cls(o.vtxinwit, o.vtxoutwit)
            elif kind == 'inwit':
                n = cls(o.scriptWitness, o.issuanceAmountRangeproof, o.inflationKeysRangeproof, o.pegin_witness)
            elif kind == 'outwit':
                n = cls(o.surjectionproof, o.rangeproof)
            else:
                n = cls(o.hash, o.n)
        self.log(how, kind, 'of', 'mutable' if e['mutable'] else 'immutable')
        same(n.is_mutable(), want, 'mutability', '%s of a %s has wrong mutability' % (how, kind), trail=self.trail)
        same(n.is_immutable(), not want, 'mutability', 'is_immutable')
        if want or e['mutable']:
            expect(n is not o, 'no-copy', '%s of a %s gave the same object' % (how, kind), trail=self.trail)
        if kind not in ('in', 'tx') or self.sane(kind, e['m']):
            expect(n == o and o == n, 'copy-unequal', '%s of a %s is not equal to its source' % (how, kind), trail=self.trail)
        self.add(kind, n, copy.deepcopy(e['m']) if kind not in ('point', 'wit') else copy.deepcopy(canon(kind, e['m'])), how)
        self.rec.count('convert')
        self.rec.feat(how, kind, e['mutable'], want)

    def sane(self, kind, m):
        ins = m['vin'] if kind == 'tx' else [m]
        for i in ins:
            n = i['n']
            if n != 0xffffffff and n & ~0x3fffffff or n == 0x3fffffff:
                return False
            if n == 0xffffffff and (i['pegin'] or i['issuance'] is not None and not C.null_issuance(i['issuance'])):
                return False
        if kind == 'tx':
            if m['winwit'] and len(m['winwit']) != len(m['vin']) or m['woutwit'] and len(m['woutwit']) != len(m['vout']):
                return False
        return True

    def extract(self):
        r = self.r
        e = r.choice(self.items)
        parts = list(kinds_of_parts(e['kind'], e['o'], e['m']))
        if not parts:
            return
        kind, o, m = r.choice(parts)
        same(o.is_mutable(), e['mutable'], 'part-mutability', 'a part (%s) of a %s %s is not of its mutability' % (
            kind, 'mutable' if e['mutable'] else 'immutable', e['kind']), trail=self.trail)
        self.log('extract', kind, 'of', e['kind'])
        if not any(x['o'] is o for x in self.items):
            self.add(kind, o, m, 'extract')
        self.rec.count('extract')
        self.rec.feat('extract', kind, e['kind'], e['mutable'])

    def edit(self):
        r = self.r
        c = B.L()
        es = [e for e in self.items if e['mutable']]
        if not es:
            return
        e = r.choice(es)
        kind, o, m = e['kind'], e['o'], e['m']
        what = None
        if kind == 'tx':
            what = r.choice(('nVersion', 'nLockTime', 'add-in', 'add-out', 'pop-in', 'pop-out', 'deep', 'deep'))
            if what == 'nVersion':
                o.nVersion = m['version'] = gen.i32(r)
            elif what == 'nLockTime':
                o.nLockTime = m['locktime'] = gen.u32(r)
            elif what == 'add-in' and len(m['vin']) < 5:
                i = gen.txin(r)
                o.vin.append(B.lib_in(i, True))
                m['vin'].append(B.m_in(o.vin[-1]))
            elif what == 'add-out' and len(m['vout']) < 5:
                i = gen.txout(r)
                o.vout.insert(0, B.lib_out(i, True))
                m['vout'].insert(0, i)
            elif what == 'pop-in' and m['vin']:
                o.vin.pop()
                m['vin'].pop()
            elif what == 'pop-out' and m['vout']:
                o.vout.pop()
                m['vout'].pop()
            elif what == 'deep' and m['vin']:
                k = r.randrange(len(m['vin']))
                o.vin[k].nSequence = m['vin'][k]['seq'] = gen.u32(r)
                o.vin[k].prevout.n = m['vin'][k]['n'] = r.randrange(100)
        elif kind == 'in':
            what = r.choice(FIELDS['in'] + ('deep',))
            if what == 'prevout':
                for x in self.items:       # the outpoint that is replaced lives on by itself
                    if x['kind'] == 'point' and x['mutable'] and x['m'] is m:
                        x['m'] = {'hash': m['hash'], 'n': m['n']}
                m['hash'], m['n'] = gen.h32(r), r.randrange(1000)
                o.prevout = c.CElementsMutableOutPoint(m['hash'], m['n'])
            elif what == 'scriptSig':
                m['script'] = gen.script(r)
                o.scriptSig = B.lib_script(m['script'])
            elif what == 'nSequence':
                o.nSequence = m['seq'] = gen.u32(r)
            elif what == 'assetIssuance':
                m['issuance'] = gen.issuance(r)
                if r.random() < .2:          # of nothing, but not null
                    m['issuance'].update(amount=b'', keys=b'')
                o.assetIssuance = B.lib_issuance(m['issuance'])
            elif what == 'is_pegin':
                o.is_pegin = m['pegin'] = not m['pegin']
            else:
                o.prevout.n = m['n'] = r.randrange(1000)
                o.prevout.hash = m['hash'] = gen.h32(r)
        elif kind == 'out':
            what = r.choice(FIELDS['out'])
            v = {'nValue': ('value', gen.value, c.CConfidentialValue), 'nAsset': ('asset', gen.asset, c.CConfidentialAsset),
                 'nNonce': ('nonce', gen.nonce, c.CConfidentialNonce), 'scriptPubKey': ('script', gen.script, B.lib_script)}[what]
            m[v[0]] = v[1](r)
            setattr(o, what, v[2](m[v[0]]))
        elif kind == 'wit':
            what = r.choice(('in', 'out', 'clear'))
            if what == 'in' and m['winwit']:
                k = r.randrange(len(m['winwit']))
                o.vtxinwit[k].issuanceAmountRangeproof = m['winwit'][k]['amount_proof'] = r.randbytes(5)
            elif what == 'out' and m['woutwit']:
                k = r.randrange(len(m['woutwit']))
                o.vtxoutwit[k].rangeproof = m['woutwit'][k]['range'] = r.randbytes(6)
            elif what == 'clear' and m['woutwit'] and r.random() < .3:
                o.vtxoutwit.pop()
                m['woutwit'].pop()
        elif kind == 'inwit':
            from bitcointx.core.script import CScriptWitness
            what = r.choice(FIELDS['inwit'])
            if what in ('scriptWitness', 'pegin_witness'):
                k = 'stack' if what == 'scriptWitness' else 'pegin_stack'
                m[k] = [r.randbytes(3) for _ in range(r.randrange(3))]
                setattr(o, what, CScriptWitness(m[k]))
            else:
                k = 'amount_proof' if what == 'issuanceAmountRangeproof' else 'keys_proof'
                m[k] = r.randbytes(7)
                setattr(o, what, m[k])
        elif kind == 'outwit':
            what = r.choice(FIELDS['outwit'])
            k = 'surj' if what == 'surjectionproof' else 'range'
            m[k] = r.randbytes(r.randrange(9))
            setattr(o, what, m[k])
        else:
            what = r.choice(FIELDS['point'])
            if what == 'n':
                o.n = m['n'] = r.randrange(1000)
            else:
                o.hash = m['hash'] = gen.h32(r)
        self.log('edit', kind, what)
        self.rec.count('edit')
        self.rec.feat('edit', kind, what)

    def refuse(self):
        r = self.r
        es = [e for e in self.items if not e['mutable']]
        if not es:
            return
        e = r.choice(es)
        kind, o = e['kind'], e['o']
        f = r.choice(FIELDS[kind])
        how = r.choice(('set', 'set', 'del', 'list'))
        self.log('refuse', how, kind, f)
        if how == 'list':
            v = getattr(o, f)
            if isinstance(v, (list, bytearray)):
                expect(False, 'mutable-container', 'field %s of an immutable %s is a %s' % (f, kind, type(v).__name__), trail=self.trail)
            if kind == 'in':
                i = o.assetIssuance
                for n in ('nAmount', 'nInflationKeys', 'assetEntropy', 'assetBlindingNonce'):
                    self.refused(i, n, getattr(i, n), 'CAssetIssuance')
            if kind == 'out':
                self.refused(o.nValue, 'commitment', b'', 'CConfidentialValue')
                self.refused(o.nAsset, 'commitment', b'', 'CConfidentialAsset')
                self.refused(o.nNonce, 'commitment', b'', 'CConfidentialNonce')
        elif how == 'set':
            self.refused(o, f, r.choice((None, 0, b'', getattr(o, f))), kind)
        else:
            try:
                delattr(o, f)
            except AttributeError:
                pass
            else:
                expect(False, 'del', 'field %s of an immutable %s was deleted' % (f, kind), trail=self.trail)
        self.rec.count('refused-assign')
        self.rec.feat('refuse', how, kind, f)

    def refused(self, o, f, v, kind):
        try:
            setattr(o, f, v)
        except AttributeError:
            return
        expect(False, 'set', 'field %s of an immutable %s was assigned' % (f, kind), trail=self.trail)

    def read(self):
        """operations that only read"""
        e = self.r.choice(self.items)
        o, kind = e['o'], e['kind']
        repr(o)
        str(o)
        if kind == 'tx' and self.sane('tx', e['m']):
            o.GetTxid()
            o.GetHash()
            o.get_virtual_size()
            if len(o.vin):
                B.lib_script(b'\x51').raw_sighash(o, 0, 1)
            o.to_mutable().to_immutable()
        self.log('read', kind)


def episode(ctx):
    p = Pool(ctx)
    for _ in range(3):
        p.construct()
    for _ in range(ctx.rng.randrange(30, 60)):
        op = ctx.rng.choice((p.construct, p.convert, p.convert, p.convert, p.edit, p.edit, p.edit, p.edit, p.extract, p.extract, p.refuse, p.refuse, p.read))
        op()
        p.check(p.trail[-1] if p.trail else '')
    ctx.rec.sample(history=p.trail[:12])


def d_identity(ctx):
    """converting an immutable to immutable is free of copies, and every part survives"""
    r = ctx.rng
    for _ in range(20):
        t = gen.tx(r, lo=1, many=0, witness=True)
        tx = B.lib_tx(t)
        mx = tx.to_mutable()
        same(C.norm(B.m_tx(mx)), C.norm(B.m_tx(tx)), 'lost', 'to_mutable lost something', model=t)
        im = mx.to_immutable()
        same(C.norm(B.m_tx(im)), C.norm(B.m_tx(tx)), 'lost', 'to_immutable lost something', model=t)
        expect(isinstance(im.vin, tuple) and isinstance(im.vout, tuple) and isinstance(im.wit.vtxinwit, tuple) and isinstance(im.wit.vtxoutwit, tuple),
               'containers', 'an immutable transaction has mutable containers')
        c = tx.clone()
        same(B.m_tx(c), B.m_tx(tx), 'clone', 'clone differs')
        ctx.rec.ev(4)


DIRECTED = [d_identity]
