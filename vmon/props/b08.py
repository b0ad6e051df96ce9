"""B08: split blinding."""
from vmon import ct, gen, bridge as B
from vmon.rec import expect, same
from vmon.ref import ec

NATIVE = True
TECHNIQUE = 'audit of recorded multi-party histories: proofs, openings, balance and recovery after each step'
RULE = """Evaluation = one judged fact after a step of a history in which two to four parties blind one transaction in turn, each knowing only
its own inputs (the others' assets are null, their amounts unknown) and the asset commitments of all inputs: the party's proofs verify
against all targets, its factors open its commitments, parts of the others are untouched, and after the last step the whole balances.  The
auxiliary list holds the commitments (bytes or bytearray) and now and then more than inputs; short, ill-typed and undecodable lists are
refused.  Distinct = (parties, inputs and outputs of the party, position, issuances, explicit inputs, extra targets, types)."""
QUICK = 150
REQUIRED = {'party-step': 230, 'final-balance': 65, 'extra-targets': 25, 'refused': 600, 'explicit-other': 40, 'issuance': 20, 'aux-known': 100, 'extra-matters': 4, 'many-extra': 20, 'many-extra-issuance': 8, 'aux-overruled': 30, 'known-no-amount': 5}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


NULL = {'asset': bytes(32), 'amount': -1, 'bf': bytes(32), 'abf': bytes(32)}


def field(d):
    return ec.ser_square(ec.blinded_generator(d['asset'], d['abf']), 10)


def plan(r, nparties):
    """each party brings inputs and takes outputs of the same total for every asset; returns (scene, owner of inputs, owner of outputs)"""
    assets = [r.randbytes(32) for _ in range(r.choice((1, 2)))]
    ins, vin, iss, who, vout, keys, owner = [], [], [], [], [], [], []
    for p in range(nparties):
        total = {}
        blinded_in = 0
        for _ in range(r.choice((1, 1, 2))):
            a, v = r.choice(assets), r.randrange(2, 10 ** 12)
            d = {'asset': a, 'amount': v, 'bf': bytes(32), 'abf': bytes(32)}
            if r.random() < .7:
                d.update(bf=ct.scalar(r), abf=ct.scalar(r))
                blinded_in += 1
            ins.append(d)
            who.append(p)
            total[a] = total.get(a, 0) + v
            t = {'hash': r.randbytes(32), 'n': r.randrange(4), 'script': b'', 'seq': gen.u32(r), 'issuance': None, 'pegin': False}
            q = (None, None)
            if r.random() < .2:
                amt, tok, con = r.randrange(1, 10 ** 9), r.choice((0, 1)), gen.h32(r)
                t['issuance'] = {'nonce': bytes(32), 'entropy': con, 'amount': ct.val(amt), 'keys': ct.val(tok) if tok else b''}
                if r.random() < .5:
                    q = (ct.scalar(r), ct.scalar(r) if tok else None)
                ia, it = ct.issued(t, q)
                total[ia] = total.get(ia, 0) + amt
                if tok:
                    total[it] = total.get(it, 0) + tok
            vin.append(t)
            iss.append(q)
        n0 = len(vout)
        for a, tot in total.items():
            k = min(tot, r.choice((1, 2, 2)))
            cuts = sorted(r.sample(range(1, tot), k - 1)) if k > 1 else []
            for x, y in zip([0] + cuts, cuts + [tot]):
                vout.append({'asset': b'\x01' + a, 'value': ct.val(y - x), 'nonce': b'', 'script': ct.spend_script(r, False) or b'\x51'})
                if vout[-1]['script'][:1] == b'\x6a':
                    vout[-1]['script'] = b'\x51'
                keys.append(ct.scalar(r) if r.random() < .8 else None)
                owner.append(p)
        need = 1 if blinded_in or any(x for q, w in zip(iss, who) if w == p for x in q) else 2
        mine = [j for j in range(n0, len(vout))]
        have = [j for j in mine if keys[j] is not None]
        while len(have) < need:
            free = [j for j in mine if keys[j] is None]
            if not free:
                return plan(r, nparties)
            j = r.choice(free)
            keys[j] = ct.scalar(r)
            have.append(j)
    # shuffle, keeping owners along
    oi, oo = list(range(len(vin))), list(range(len(vout)))
    r.shuffle(oi)
    r.shuffle(oo)
    s = {'tx': {'version': 2, 'vin': [vin[i] for i in oi], 'vout': [vout[j] for j in oo], 'locktime': gen.u32(r), 'winwit': None, 'woutwit': None},
         'ins': [ins[i] for i in oi], 'keys': [keys[j] for j in oo], 'iss': [iss[i] for i in oi], 'aux': None, 'strict': True, 'exp': 0,
         'bits': r.choice((3, 4, 8, 8, 16))}
    if r.random() < .3:
        s['tx']['winwit'] = [{'amount_proof': b'', 'keys_proof': b'', 'stack': gen.stack(r), 'pegin_stack': []} for _ in vin]
    return s, [who[i] for i in oi], [owner[j] for j in oo]


def episode(ctx):
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    n = r.choice((2, 2, 2, 3, 4))
    s, who, owner = plan(r, n)
    extra = [field({'asset': r.randbytes(32), 'abf': ct.scalar(r)}) for _ in range(r.choice((0, 0, 1, 3, r.randrange(4, 30))))]
    aux = [field(d) for d in s['ins']] + extra
    order = list(range(n))
    r.shuffle(order)
    tx = B.lib_tx(s['tx'], mutable=True)
    allbf = {}
    # token kinds follow the request of the owner of the input, which the others cannot know: they are blinded first, or explicit
    for step, p in enumerate(order):
        before = ct.full(B.m_tx(tx), s['tx'])
        know = [w == p or (not any(d['bf']) and not any(d['abf']) and r.random() < .3) for w, d in zip(who, s['ins'])]
        u = dict(s, tx=before, ins=[d if k else NULL for d, k in zip(s['ins'], know)], aux=[bytes(a) for a in aux],
                 keys=[k if o == p else None for k, o in zip(s['keys'], owner)],
                 iss=[q if w == p else (None, None) for q, w in zip(s['iss'], who)])
        form = r.choice(('bytes', 'bytes', 'bytearray', 'tuple'))
        hint = list(aux)
        if r.random() < .3:
            # what the list says about an input whose asset is known does not matter; nor does the amount of an input without factors
            for i, d in enumerate(u['ins']):
                if any(d['asset']) and r.random() < .6:
                    hint[i] = field({'asset': r.randbytes(32), 'abf': ct.scalar(r)})
                    if not any(d['bf']) and not any(d['abf']) and r.random() < .5:
                        u['ins'][i] = dict(d, amount=-1)
                        rec.count('known-no-amount')
                    rec.count('aux-overruled')
        given = tuple(hint) if form == 'tuple' else [bytearray(a) for a in hint] if form == 'bytearray' else list(hint)
        if any(before['vin'][i]['issuance'] and (before['vin'][i]['issuance']['amount'][:1] == b'\x08' or before['vin'][i]['issuance']['amount'][:1] == b'\x09'
                                                 or before['vin'][i]['issuance']['keys'][:1] in (b'\x08', b'\x09')) for i in range(len(who))):
            # amounts of an issuance that have been blinded stop further blinding (as in Elements Core)
            res, tx2 = ct.blind(u, None, None, tx, auxiliary_generators=given)
            expect(not res.ok, 'after-issuance', 'a transaction with blinded issuance amounts was accepted for blinding')
            same(ct.full(B.m_tx(tx), s['tx']), before, 'after-issuance', 'a refused request changed the transaction')
            rec.count('issuance-stops')
            return
        if any(x for q in u['iss'] for x in q) and step != n - 1:
            # so the party with blinded issuances has to come last: leave the issuances explicit otherwise
            for i, w in enumerate(who):
                if w == p and s['iss'][i] != (None, None):
                    tok = ct.issued(s['tx']['vin'][i], s['iss'][i])[1], ct.issued(s['tx']['vin'][i], (None, None))[1]
                    if tok[0] != tok[1]:
                        return
                    s['iss'] = list(s['iss'])
                    s['iss'][i] = (None, None)
            u['iss'] = [(None, None)] * len(who)
            bl = sum(any(d['bf']) or any(d['abf']) for d in u['ins'])
            if not bl and ct.n_requested(u) < 2:
                return
        if others_blind_tokens(s, who, p):
            return
        res, _ = ct.must_blind(u, tx, given)
        m = ct.full(B.m_tx(tx), s['tx'])
        same(list(map(bytes, given)), hint, 'aux-changed', 'the auxiliary list was changed')
        same(res.num_successfully_blinded, ct.n_requested(u), 'count', 'wrong number of blinded parts')
        ct.check_frame(u, m)
        audit(ctx, s, u, m, res, aux)
        rec.count('party-step')
        rec.count('extra-targets', bool(extra))
        rec.count('many-extra', len(extra) > 2 * len(who))
        rec.count('explicit-other', any(w != p and not any(d['abf']) for w, d in zip(who, s['ins'])))
        rec.count('issuance', any(t['issuance'] is not None for t in s['tx']['vin']))
        rec.count('aux-known', 1)
        rec.feat(n, step, who.count(p), sum(o == p for o in owner), len(extra), form, any(any(q) for q in u['iss']),
                 sum(t['issuance'] is not None for t in s['tx']['vin']), tuple(sorted(any(d['abf']) for d in u['ins'])))
        for j, o in enumerate(owner):
            if o == p:
                allbf[j] = (bytes(res.blinding_factors[j].data), bytes(res.asset_blinding_factors[j].data))
        if r.random() < .3:
            raw = tx.serialize()
            tx = B.L().CElementsMutableTransaction.deserialize(raw)
    m = ct.full(B.m_tx(tx), s['tx'])
    ct.check_balance(s, m)
    s['aux'] = aux
    for j, k in enumerate(s['keys']):
        if k is not None:
            un = ct.unblind(m, j, k)
            expect(un.ok, 'recover', 'an output of a split blinding is not recovered: %s' % un.error)
            same((un.amount, bytes(un.blinding_factor.data), bytes(un.asset_blinding_factor.data)),
                 (int.from_bytes(s['tx']['vout'][j]['value'][1:], 'big'),) + allbf[j], 'recover', 'wrong data recovered')
            rec.ev()
    rec.ev(2)
    rec.count('final-balance')
    bad(ctx, s, who, owner, aux)
    rec.sample(parties=n, inputs=len(who), outputs=len(owner))


def others_blind_tokens(s, who, p):
    """another party would later make the token of its issuance the confidential kind: the targets would differ"""
    return any(q[1] is not None and w != p for q, w in zip(s['iss'], who))


def audit(ctx, s, u, m, res, aux):
    """proofs of this party against all targets as anybody can compute them from the final transaction"""
    z, rec = ctx.data['z'], ctx.rec
    tg, _ = ct.targets(dict(s, aux=None))
    tg += aux[len(s['ins']):]
    for j, k in enumerate(u['keys']):
        if k is None:
            continue
        o, w = m['vout'][j], m['woutwit'][j]
        expect(o['value'][:1] in (b'\x08', b'\x09') and o['asset'][:1] in (b'\x0a', b'\x0b'), 'not-blinded', 'output %d was not blinded' % j)
        expect(z.range_verify(o['value'], o['asset'], o['script'], w['range']) is not None, 'rangeproof', 'range proof of output %d does not verify' % j)
        expect(z.surj_verify(tg, o['asset'], w['surj']), 'surjection', 'surjection proof of output %d does not verify against the commitments of all inputs' % j, scene=s)
        rec.ev(3)
    ct.check_openings(u, m, res, rec)


def bad(ctx, s, who, owner, aux):
    """unusable auxiliary data"""
    r, rec = ctx.rng, ctx.rec
    n = len(who)
    p = r.choice(who)
    ins = [d if w == p else NULL for d, w in zip(s['ins'], who)]
    u = dict(s, ins=ins, aux=None, keys=[k if o == p else None for k, o in zip(s['keys'], owner)], iss=[(None, None)] * n)
    x = r.choice([i for i in range(n) if who[i] != p])
    unknown = [i for i in range(n) if who[i] != p]

    def put(i, v):
        a = list(aux) + [aux[0]] * 0
        a[i] = v
        return a
    cases = [('none', (), None, unknown[0]), ('empty', [], None, unknown[0]),
             ('short', aux[:n - 1], ValueError, None), ('short-1', aux[:1] if n > 1 else [], ValueError if n > 1 else None, None),
             ('long-item', put(x, aux[x] + b'\x00'), ValueError, x), ('short-item', put(x, aux[x][:-1]), ValueError, x), ('empty-item', put(x, b''), ValueError, x),
             ('none-item', put(x, None), TypeError, x), ('str-item', put(x, 'x' * 33), TypeError, x), ('int-item', put(x, 33), TypeError, x),
             ('prefix-0', put(x, b'\x00' + aux[x][1:]), None, x), ('explicit', put(x, b'\x01' + aux[x][1:]), None, x), ('prefix-8', put(x, b'\x08' + aux[x][1:]), None, x),
             ('pubkey', put(x, b'\x02' + aux[x][1:]), None, x), ('off-curve', put(x, offcurve(r)), None, x), ('ones', put(x, b'\x0a' + b'\xff' * 32), None, x),
             ('extra-bad', aux + [offcurve(r)], None, len(aux)), ('extra-type', aux + [None], TypeError, len(aux)), ('extra-length', aux + [b'\x0a'], ValueError, len(aux))]
    for name, a, exc, pos in cases:
        tx = B.lib_tx(u['tx'], mutable=True)
        before = ct.snapshot(tx)
        try:
            res, _ = ct.blind(u, None, None, tx, auxiliary_generators=a)
            got = None
            expect(not res.ok, 'bad-aux-' + name, 'unusable auxiliary data (%s) was accepted' % name)
            msg = res.error
        except (ValueError, TypeError) as e:
            got, msg = type(e), str(e)
        except Exception as e:
            got, msg = type(e), str(e)
            expect(False, 'bad-aux-' + name, 'unusable auxiliary data (%s) raised %s: %s' % (name, type(e).__name__, e))
        if exc is not None:
            expect(got is not None and issubclass(got, exc), 'bad-aux-' + name, 'unusable auxiliary data (%s): expected %s, got %s' % (name, exc.__name__, got or msg))
        if pos is not None:
            expect(str(pos) in msg, 'bad-aux-position-' + name, 'the message %r does not name position %d (%s)' % (msg, pos, name))
        same(ct.snapshot(tx), before, 'bad-aux-changed-' + name, 'a request with unusable auxiliary data (%s) changed the transaction' % name)
        rec.ev(3)
        rec.count('refused')


def offcurve(r):
    while True:
        b = b'\x0a' + r.randbytes(32)
        if ec.par_square(b, 10) is None:
            return b


def d_extra(ctx):
    """extra commitments beyond the inputs count as targets: proofs that use them verify only with them"""
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    for k in (1, 2, 5, 12, 40):
        s = ct.scene(r, nin=2, nout=3, issuances=0, explicit_in=0, blind=True, bits=3, zero=0, fee=False)
        extra = [field({'asset': r.randbytes(32), 'abf': ct.scalar(r)}) for _ in range(k)]
        aux = [field(d) for d in s['ins']]
        s['aux'] = aux + extra
        res, tx = ct.must(s)
        m = ct.full(B.m_tx(tx), s['tx'])
        ct.check_proofs(z, s, m, rec)
        ct.check_openings(s, m, res, rec)
        ct.check_balance(s, m)
        for j, key in enumerate(s['keys']):
            if key is not None:
                expect(not z.surj_verify(aux, m['vout'][j]['asset'], m['woutwit'][j]['surj']), 'extra-ignored', 'the extra targets are not part of the proof')
                rec.count('extra-matters')
        # as above with issuances: inputs, issued assets, tokens and extras are all targets
        for tok in (0, 1):
            s = ct.scene(r, nin=2, nout=3, issuances=1, explicit_in=0, blind=True, bits=3, zero=0, fee=False)
            s['aux'] = [field(d) for d in s['ins']] + extra
            res, tx = ct.must(s)
            m = ct.full(B.m_tx(tx), s['tx'])
            ct.check_proofs(z, s, m, rec)
            ct.check_openings(s, m, res, rec)
            ct.check_balance(s, m)
            rec.count('many-extra-issuance', any(t['issuance'] for t in s['tx']['vin']))
        s = ct.scene(r, nin=2, nout=3, issuances=0, explicit_in=0, blind=True, bits=3, zero=0, fee=False)
        aux = [field(d) for d in s['ins']]
        # a known input does not look at its auxiliary entry beyond its length
        s['aux'] = None
        junk = [b'\x00' * 33 for _ in s['ins']]
        res, tx = ct.blind(s, None, None, auxiliary_generators=junk)
        expect(res.ok, 'junk-known', 'auxiliary entries of known inputs are not needed, but were refused: %s' % res.error)
        m = ct.full(B.m_tx(tx), s['tx'])
        ct.check_proofs(z, s, m, rec)
        ct.check_balance(s, m)


def d_positions(ctx):
    """the asset of an unknown input is taken from the auxiliary data at its own position: all arrangements of three inputs"""
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    for unknown in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
        a = [r.randbytes(32) for _ in range(3)]
        full = [{'asset': x, 'amount': 1000, 'bf': ct.scalar(r), 'abf': ct.scalar(r)} for x in a]
        vin = [{'hash': r.randbytes(32), 'n': 0, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False} for _ in a]
        if len(unknown) == 1:
            i = (unknown[0] + 1) % 3
            vin[i]['issuance'] = {'nonce': bytes(32), 'entropy': bytes(32), 'amount': ct.val(5), 'keys': ct.val(1)}
        vout, keys = [], []
        for i, x in enumerate(a):
            for v in (400, 600):
                vout.append({'asset': b'\x01' + x, 'value': ct.val(v), 'nonce': b'', 'script': b'\x51'})
                keys.append(ct.scalar(r) if i not in unknown else None)
        s = {'tx': {'version': 2, 'vin': vin, 'vout': vout, 'locktime': 0, 'winwit': None, 'woutwit': None}, 'ins': full, 'keys': keys,
             'iss': [(None, None)] * 3, 'aux': None, 'strict': True, 'exp': 0, 'bits': 3}
        aux = [field(d) for d in full]
        u = dict(s, ins=[NULL if i in unknown else d for i, d in enumerate(full)], aux=aux)
        res, tx = ct.must(u)
        m = ct.full(B.m_tx(tx), s['tx'])
        audit(ctx, s, u, m, res, aux)
        # an output of an asset only the other party has: no proof possible, no strict success
        w = dict(u, keys=[ct.scalar(r) if j // 2 in (unknown[0],) else k for j, k in enumerate(keys)])
        res, tx = ct.blind(w)
        expect(not res.ok, 'foreign-asset', 'strict success although no surjection proof can be made for an asset of an unknown input')
        rec.ev(2)


DIRECTED = [d_extra, d_positions]
