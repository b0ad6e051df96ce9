"""B06: faults inside the crypto library."""
import traceback

from vmon import ct, gen, bridge as B
from vmon.rec import expect, same, Violation

NATIVE = True
LEVEL = 'exploration'
TECHNIQUE = 'fault injection into the native library, with a full audit of every reported success and a monitor of live native objects'
RULE = """Evaluation = one blinding or unblinding during which one chosen call (or all calls from one on) of one function of the crypto library
fails, or one draw of randomness fails or is unusable.  It must end in an exception or a failure with a reason; a success passes only if
a complete audit (balance, range and surjection proofs, openings; for unblinding: what was sent) finds nothing missing.  After each fault
the number of live native proof objects has to be zero, and a fresh blinding has to succeed.  For the scenes of this run every function is
failed at every one of its calls.  Distinct = (function, index of the call, one or all, kind of scene, how it ended)."""
QUICK = 70
REQUIRED = {'fault-hit': 800, 'unblind-fault': 100, 'draw-fault': 120, 'recovered-after': 39, 'lenient': 60,
            **{'hit:' + f: 10 for f in ('generator_generate_blinded', 'generator_serialize', 'pedersen_commit', 'pedersen_commitment_serialize',
                                        'pedersen_blind_generator_blind_sum', 'rangeproof_sign', 'surjectionproof_allocate_initialized',
                                        'surjectionproof_generate', 'surjectionproof_verify', 'surjectionproof_serialize', 'rangeproof_rewind',
                                        'rangeproof_info', 'pedersen_commitment_parse', 'generator_parse')}}

FUNCS = ('generator_generate', 'generator_generate_blinded', 'generator_parse', 'generator_serialize', 'pedersen_commitment_parse',
         'pedersen_commitment_serialize', 'pedersen_commit', 'pedersen_blind_generator_blind_sum', 'rangeproof_sign', 'rangeproof_info',
         'rangeproof_rewind', 'rangeproof_verify', 'surjectionproof_initialize', 'surjectionproof_allocate_initialized',
         'surjectionproof_generate', 'surjectionproof_verify', 'surjectionproof_serialized_size', 'surjectionproof_serialize', 'surjectionproof_parse')


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def clear(ctx, what):
    z = ctx.data['z']
    z.fault(b'', 0)
    n = z.live_surjectionproofs()
    expect(n == 0, 'leak' if n > 0 else 'released-twice', '%d native proof objects alive after %s' % (n, what))
    ctx.rec.ev()


def judge(ctx, s, res, tx, what):
    """an outcome that came back: failure with a reason, or a complete result"""
    if not res.ok:
        expect(isinstance(res.error, str) and res.error, 'no-reason', 'failure without a reason (%s)' % what)
        return 'failure'
    m = ct.full(B.m_tx(tx), s['tx'])
    want = ct.n_requested(s)
    n = res.num_successfully_blinded
    z = ctx.data['z']
    key = 'success-after-fault'
    if s['strict']:
        same(n, want, key, 'success reported for %d of %d parts (%s)' % (n, want, what), scene=s)
        try:
            ct.check_proofs(z, s, m)
            ct.check_openings(s, m, res)
            ct.check_balance(s, m)
            ct.written(tx)
        except Violation as v:
            raise Violation(key + '-' + v.key, 'success reported although %s (%s)' % (v.msg, what), scene=s)
        return 'complete'
    done = 0
    for j, k in enumerate(s['keys']):
        if k is not None:
            try:
                ct.check_proofs(z, s, m, only={j}, issuances=False)
                done += 1
            except Violation:
                pass
    for i, q in enumerate(s['iss']):
        for which in (0, 1):
            if q[which] is not None:
                p = m['winwit'][i]['keys_proof' if which else 'amount_proof']
                done += bool(p)
    same(n, done, key, '%d parts reported as blinded, %d are (%s)' % (n, done, what), scene=s)
    return 'counted'


def once(ctx, s, rand, what, r=None):
    try:
        res, tx = ct.blind(s, None, rand)
    except Exception as e:
        return 'raised ' + type(e).__name__, ctx.data['z'].fault_hits()
    hits = ctx.data['z'].fault_hits()
    ctx.data['z'].fault(b'', 0)
    return judge(ctx, s, res, tx, what), hits


def faults(ctx, s, limit, kind):
    """each function at each of its calls"""
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    seed = r.randbytes(8)
    before = {f: z.calls(f.encode()) for f in FUNCS}
    res, tx = ct.must(s, None, ct.Draws(seed))
    counts = {f: z.calls(f.encode()) - before[f] for f in FUNCS}
    clear(ctx, 'a successful blinding')
    todo = [(f, n, al) for f in FUNCS for n in range(1, counts[f] + 1) for al in (False, True)]
    if limit is not None and len(todo) > limit:
        todo = r.sample(todo, limit)
    for f, n, al in todo:
        s2 = dict(s, strict=s['strict'] if limit is None or r.random() < .6 else False)
        (z.fault_from if al else z.fault)(f.encode(), n)
        what = '%s %s call %d' % (f, 'from' if al else 'at', n)
        try:
            got, hits = once(ctx, s2, ct.Draws(seed), what)
        finally:
            z.fault(b'', 0)
        clear(ctx, 'a fault in ' + what)
        rec.ev()
        rec.count('fault-hit', hits > 0)
        rec.count('hit:' + f, hits > 0)
        rec.count('lenient', not s2['strict'])
        rec.count('ended: ' + got)
        rec.feat(f, n, al, kind, got)
    # the process goes on
    res, tx = ct.must(s, None, ct.Draws(seed))
    judge(ctx, s, res, tx, 'no fault')
    m = ct.full(B.m_tx(tx), s['tx'])
    clear(ctx, 'recovery')
    rec.count('recovered-after')
    return res, tx, m


def unblind_faults(ctx, s, res, m, every):
    from bitcointx.core.key import CKey
    core = B.L()
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    js = [j for j, k in enumerate(s['keys']) if k is not None]
    for j in js if every else js[:1]:
        for f in FUNCS:
            for n in (1, 2, 3):
                for al in (False, True):
                    (z.fault_from if al else z.fault)(f.encode(), n)
                    try:
                        un = ct.unblind(m, j, s['keys'][j])
                        got = 'ok' if un.ok else 'failure'
                    except Exception as e:
                        un, got = None, 'raised ' + type(e).__name__
                    hits = z.fault_hits()
                    z.fault(b'', 0)
                    if un is not None and un.ok:
                        same((un.amount, bytes(un.asset.data), bytes(un.blinding_factor.data), bytes(un.asset_blinding_factor.data)),
                             (int.from_bytes(s['tx']['vout'][j]['value'][1:], 'big'), s['tx']['vout'][j]['asset'][1:],
                              bytes(res.blinding_factors[j].data), bytes(res.asset_blinding_factors[j].data)), 'unblind-after-fault',
                             'unblinding reported wrong data after a fault in %s' % f)
                    if un is not None and not un.ok:
                        expect(un.error, 'no-reason', 'failure without a reason')
                        expect(hits, 'unblind-failed', 'unblinding failed without a fault: %s' % un.error)
                    rec.ev()
                    rec.count('unblind-fault', hits > 0)
                    rec.count('hit:' + f, hits > 0)
                    if hits:
                        rec.feat('unblind', f, n, al, got)
        # a lie that only the last comparison reveals must not slip through when serialization of generators fails
        a, abf, bf, v = r.randbytes(32), ct.scalar(r), ct.scalar(r), ct.amount(r)
        eph = ct.scalar(r)
        got = z.make(a, abf, v, bf, ct.nonce_for(s['keys'][j], ct.pub(eph)), b'\x51', r.randbytes(32) + abf)
        if got is None:
            continue
        out = {'asset': got[0], 'value': got[1], 'nonce': ct.pub(eph), 'script': b'\x51'}
        for f in ('generator_serialize', 'generator_parse', 'generator_generate_blinded'):
            for al in (False, True):
                (z.fault_from if al else z.fault)(f.encode(), 1)
                try:
                    un = B.lib_out(out).unblind_confidential_pair(CKey(s['keys'][j]), got[2])
                    lie = un.ok
                except Exception:
                    lie = False
                rec.count('hit:' + f, z.fault_hits() > 0)
                z.fault(b'', 0)
                expect(not lie, 'lie-after-fault', 'unblinding of a false side channel succeeded when %s fails' % f)
                rec.ev()
        w = core.CElementsTxOutWitness(b'', m['woutwit'][j]['range'])
        z.fault(b'rangeproof_info', 1)
        try:
            info = w.get_rangeproof_info()
        except Exception:
            info = None
        rec.count('hit:rangeproof_info', z.fault_hits() > 0)
        hit = z.fault_hits()
        z.fault(b'', 0)
        expect(info is None or not hit, 'info-after-fault', 'proof information %r given after a fault' % (info,))
        expect(w.get_rangeproof_info() is not None, 'info', 'no proof information')
        rec.ev(2)


class Boom(Exception):
    pass


def draw_faults(ctx, s, limit):
    """the randomness source fails or gives something unusable at each draw"""
    r, rec = ctx.rng, ctx.rec
    d = ct.Draws(r.randbytes(8))
    ct.must(s, None, d)
    n = len(d.log)
    bad = [('raise', None), ('short', b'\x01' * 31), ('long', b'\x01' * 33), ('empty', b''), ('zero', bytes(32)), ('order', ct.N.to_bytes(32, 'big')),
           ('ones', b'\xff' * 32), ('type', 7), ('none', None), ('str', 'x' * 32)]
    todo = [(k, b) for k in range(n) for b in bad]
    if limit is not None and len(todo) > limit:
        todo = r.sample(todo, limit)
    for k, (name, v) in todo:
        base = ct.Draws(d.seed)

        def rand(size):
            got = base(size)
            if len(base.log) - 1 != k:
                return got
            if name == 'raise':
                raise Boom()
            return v
        got, _ = once(ctx, s, rand, 'draw %d: %s' % (k, name))
        clear(ctx, 'draw %d: %s' % (k, name))
        rec.ev()
        rec.count('draw-fault')
        rec.feat('draw', min(k, 9), name, got)


def small_scene(r, **kw):
    for _ in range(100):
        s = ct.scene(r, bits=3, long_ok=False, **kw)
        if ct.n_requested(s) <= 5:
            return s
    return s


def episode(ctx):
    r = ctx.rng
    s = small_scene(r, issuances=.4)
    if r.random() < .3:
        withaux(ctx, s)
    if r.random() < .3:
        s['strict'] = False
    res, tx, m = faults(ctx, s, 14, ct.features(s)[:5])
    if r.random() < .3:
        unblind_faults(ctx, s, res, m, False)
    draw_faults(ctx, s, 4)
    ctx.rec.sample(parts=ct.n_requested(s))


def withaux(ctx, s):
    from vmon.ref import ec
    r = ctx.rng
    s['aux'] = [ec.ser_square(ec.blinded_generator(d['asset'], d['abf']), 10) for d in s['ins']]
    s['aux'] += [ec.ser_square(ec.blinded_generator(r.randbytes(32), ct.scalar(r)), 10) for _ in range(r.choice((0, 1, 2)))]


def d_all(ctx):
    s = small_scene(ctx.rng, nin=2, issuances=0, nout=2, zero=0)
    res, tx, m = faults(ctx, s, None, 'plain')
    unblind_faults(ctx, s, res, m, True)
    draw_faults(ctx, s, None if ctx.tier == 'thorough' else 40)


def d_issuance(ctx):
    s = small_scene(ctx.rng, nin=1, issuances=1, reissue=0, nout=1, zero=0, fee=False)
    faults(ctx, s, None, 'issuance')


def d_aux(ctx):
    s = small_scene(ctx.rng, nin=1, issuances=0, nout=2, zero=0)
    withaux(ctx, s)
    s['aux'].append(s['aux'][0])
    res, tx, m = faults(ctx, s, None, 'aux')


def d_other_party(ctx):
    """the asset of the inputs is taken from the auxiliary data"""
    r, z = ctx.rng, ctx.data['z']
    s = small_scene(ctx.rng, nin=2, issuances=0, nout=2, zero=0, blind=True)
    withaux(ctx, s)
    u = dict(s, ins=[s['ins'][0]] + [dict(asset=bytes(32), amount=-1, bf=bytes(32), abf=bytes(32)) for _ in s['ins'][1:]])
    if u['ins'][0]['asset'] != s['ins'][1]['asset']:
        u['keys'] = [k if o['asset'][1:] == u['ins'][0]['asset'] else None for k, o in zip(s['keys'], s['tx']['vout'])]
    if ct.n_requested(u) < 2:
        return
    n0 = {f: z.calls(f.encode()) for f in FUNCS}
    res, tx = ct.blind(u, None, ct.Draws(b'x'))
    n = {f: z.calls(f.encode()) - n0[f] for f in FUNCS}
    for f in FUNCS:
        for k in range(1, n[f] + 1):
            z.fault(f.encode(), k)
            try:
                res, tx = ct.blind(u, None, ct.Draws(b'x'))
                ok = res.ok
            except Exception:
                ok = False
            hits = z.fault_hits()
            clear(ctx, 'a fault in ' + f)
            if ok and hits:
                m = ct.full(B.m_tx(tx), u['tx'])
                ct.check_proofs(z, u, m)
                ct.check_openings(u, m, res)
            ctx.rec.count('fault-hit', hits > 0)
            ctx.rec.count('hit:' + f, hits > 0)


DIRECTED = [d_all, d_issuance, d_aux, d_other_party]
