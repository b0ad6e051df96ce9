"""B10: randomness of blinding."""
import hashlib
import os
import random
import subprocess
import sys

from vmon import ct, gen, env, bridge as B
from vmon.rec import expect, same
from vmon.ref import ec

NATIVE = True
TECHNIQUE = 'recording of every draw from the randomness source and offline matching of each secret in the result with the draw it came from'
RULE = """Evaluation = one secret of a finished blinding (blinding factor, asset factor, ephemeral key, issuance factor, selection seed of a
surjection proof) matched with the draw it came from: every secret except the balancing factor is one draw of 32 bytes, no draw serves two
secrets, and no draw is left over.  Seeds are matched by running the selection of the native library on the leftover draws.  Further: the same
source gives the same transaction; another source shares nothing; with the default source repeated blindings (same process, after seeding
Python's generator, in forked children, in fresh processes) share no factor, nonce or commitment.
Distinct = (number of outputs, issuances, draws, precision)."""
QUICK = 400
REQUIRED = {'value-factor': 400, 'asset-factor': 600, 'ephemeral': 600, 'issuance-factor': 60, 'seed': 600, 'balancing': 250, 'reproduced': 250, 'default-pair': 60, 'forked': 6, 'siblings': 25}


def setup(ctx):
    ctx.data['z'] = ct.Z(ctx.native)


def secrets_of(ctx, s, m, res):
    """[(what, 32 bytes)] of one result, from the outside; the last blinded output carries the balancing value factor"""
    from bitcointx.core.key import CKey
    core = B.L()
    out = []
    last = max(j for j, k in enumerate(s['keys']) if k is not None)
    for j, k in enumerate(s['keys']):
        if k is None:
            continue
        bf, abf = bytes(res.blinding_factors[j].data), bytes(res.asset_blinding_factors[j].data)
        out.append(('balancing' if j == last else 'value-factor', bf))
        out.append(('asset-factor', abf))
    for i, (ka, kt) in enumerate(s['iss']):
        a, tok = ct.issued(s['tx']['vin'][i], s['iss'][i]) if s['tx']['vin'][i]['issuance'] else (None, None)
        for key, f, p, tag in ((ka, 'amount', 'amount_proof', a), (kt, 'keys', 'keys_proof', tok)):
            if key is None:
                continue
            un = core.unblind_confidential_pair(blinding_key=CKey(key), confValue=core.CConfidentialValue(m['vin'][i]['issuance'][f]),
                                                confAsset=core.CConfidentialAsset(b'\x01' + tag), confNonce=core.CConfidentialNonce(),
                                                committedScript=B.lib_script(b''), rangeproof=m['winwit'][i][p])
            expect(un.ok, 'recover', 'the amount of a blinded issuance is not recovered')
            out.append(('issuance-factor', bytes(un.blinding_factor.data)))
    return out


def selection(z, s, m, j, seed):
    """which targets a surjection proof uses if its selection was seeded so"""
    import ctypes
    tg, assets = ct.targets(s)
    tags = b''.join(a if a is not None else bytes(32) for a in assets)
    p, idx = ctypes.create_string_buffer(z.spsize), ctypes.c_size_t()
    ok = z.surjectionproof_initialize(z.ctx, p, ctypes.byref(idx), tags, len(assets), min(3, len(assets)), s['tx']['vout'][j]['asset'][1:], 100, seed)
    if not ok:
        return None
    n = len(assets)
    return p.raw[8:8 + (n + 7) // 8]


def account(ctx, s, m, res, draws):
    r, z, rec = ctx.rng, ctx.data['z'], ctx.rec
    for n, d in zip(draws.sizes, draws.log):
        same(n, 32, 'draw-size', 'a draw of %d bytes was made' % n)
    pool = {}
    for x, d in enumerate(draws.log):
        pool.setdefault(d, []).append(x)
    expect(len(pool) == len(draws.log), 'harness', 'source repeated itself')
    left = dict(pool)
    sec = secrets_of(ctx, s, m, res)
    vals = [v for w, v in sec]
    expect(len(set(vals)) == len(vals), 'shared', 'a secret is used for two purposes: %s' % [w for w, v in sec if vals.count(v) > 1], scene=s)
    for what, v in sec:
        rec.count(what)
        rec.ev()
        if what == 'balancing':
            expect(v not in left, 'balancing', 'the balancing factor is a plain draw')
            continue
        expect(v in left, 'no-draw-' + what, 'a %s is not a draw of its own' % what, scene=s)
        del left[v]
    pubs = {ct.pub(d): d for d in left}
    nonces = [m['vout'][j]['nonce'] for j, k in enumerate(s['keys']) if k is not None]
    expect(len(set(nonces)) == len(nonces), 'shared-nonce', 'two outputs share an ephemeral key')
    for j, k in enumerate(s['keys']):
        if k is None:
            continue
        n = m['vout'][j]['nonce']
        expect(n in pubs and pubs[n] in left, 'no-draw-ephemeral', 'the ephemeral key of output %d does not come from a draw of its own' % j, scene=s)
        del left[pubs[n]]
        rec.count('ephemeral')
        rec.ev()
    for j, k in enumerate(s['keys']):
        if k is None:
            continue
        w = m['woutwit'][j]['surj']
        used = w[2:2 + (int.from_bytes(w[:2], 'little') + 7) // 8]
        fits = [d for d in left if selection(z, s, m, j, d) == used]
        ctx.data.setdefault('fits', []).append((j, fits))
        expect(fits, 'no-draw-seed', 'the selection in the surjection proof of output %d does not come from a draw of its own' % j, scene=s)
        rec.ev()
        rec.count('seed')
    # one seed each: match outputs and leftover draws completely (a system of distinct representatives)
    fits = ctx.data.pop('fits', [])
    match = {}

    def aug(j, f, seen):
        for d in f:
            if d in seen:
                continue
            seen.add(d)
            if d not in match or aug(*match[d], seen):
                match[d] = (j, f)
                return True
        return False
    for j, f in fits:
        expect(aug(j, f, set()), 'shared-seed', 'two surjection proofs were seeded by the same draw')
    # leftovers beyond the seeds: the draw replaced by the balancing factor
    extra = len(left) - len(fits)
    expect(extra <= 1, 'unused-draws', '%d draws were made that serve no secret' % extra)
    rec.ev()
    rec.feat(len(sec), len(draws.log), s['bits'], len(s['ins']))


def fixed(s):
    """the output whose value factor is determined by the inputs: the balancing one, if it is the only part to blind"""
    last = max(j for j, k in enumerate(s['keys']) if k is not None)
    return last if ct.n_requested(s) == 1 else None


def commitments(m, s):
    for j, k in enumerate(s['keys']):
        if k is not None:
            yield m['vout'][j]['asset']
            if j != fixed(s):
                yield m['vout'][j]['value']
            yield m['vout'][j]['nonce']
    for i, (ka, kt) in enumerate(s['iss']):
        if ka is not None:
            yield m['vin'][i]['issuance']['amount']
        if kt is not None:
            yield m['vin'][i]['issuance']['keys']


def shared(a, b, sa, sb, ra=None, rb=None):
    x, y = set(commitments(a, sa)), set(commitments(b, sb))
    if ra is not None:
        for z, s, q in ((x, sa, ra), (y, sb, rb)):
            z |= {bytes(f.data) for j, f in enumerate(q.blinding_factors) if not (j == fixed(s) and s['tx']['vout'][j]['value'] == ct.val(0))}
            z |= {bytes(f.data) for f in q.asset_blinding_factors}
            z.discard(bytes(32))
    return x & y


def episode(ctx):
    r, rec = ctx.rng, ctx.rec
    s = ct.scene(r, bits=r.choice((3, 3, 4, 8)), issuances=.3, long_ok=False, aux=False)
    d = ct.Draws(r.randbytes(8))
    res, tx = ct.must(s, None, d)
    m = ct.full(B.m_tx(tx), s['tx'])
    account(ctx, s, m, res, d)
    # same source, same result; another source, nothing in common
    d2 = ct.Draws(d.seed)
    res2, tx2 = ct.must(s, None, d2)
    same(tx2.serialize(), tx.serialize(), 'not-reproduced', 'the same randomness gave another transaction')
    same([bytes(x.data) for x in res2.blinding_factors], [bytes(x.data) for x in res.blinding_factors], 'not-reproduced', 'the same randomness gave other factors')
    rec.count('reproduced')
    res3, tx3 = ct.must(s, None, ct.Draws(b'other' + d.seed))
    m3 = ct.full(B.m_tx(tx3), s['tx'])
    expect(not shared(m, m3, s, s, res, res3), 'shared-between-sources', 'results from different randomness share something')
    rec.ev(3)
    if r.random() < .35:
        defaults(ctx, s)
    rec.sample(draws=len(d.log))


def defaults(ctx, s):
    """the default source, with everything in the process that could be seeded seeded the same"""
    rec = ctx.rec
    got = []
    st = random.getstate()
    for _ in range(2):
        random.seed(1)
        try:
            got.append(ct.must(s, None))
        finally:
            random.setstate(st)
    (ra, a), (rb, b) = got
    ma, mb = ct.full(B.m_tx(a), s['tx']), ct.full(B.m_tx(b), s['tx'])
    expect(not shared(ma, mb, s, s, ra, rb), 'repeated', 'two blindings of the same transaction share a factor, nonce or commitment', scene=s)
    fa = [bytes(x.data) for x in list(ra.blinding_factors) + list(ra.asset_blinding_factors) if any(x.data)]
    expect(len(set(fa)) == len(fa), 'shared', 'factors repeat within one blinding')
    rec.ev(2)
    rec.count('default-pair')


def d_fork(ctx):
    """children forked after the library was used"""
    r = ctx.rng
    s = ct.scene(r, bits=3, issuances=.5, nin=2, blind=True, long_ok=False)
    ct.must(s, None)
    outs = []
    for _ in range(6):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            ok = 1
            try:
                os.close(rd)
                res, tx = ct.blind(s)
                m = ct.full(B.m_tx(tx), s['tx'])
                with os.fdopen(wr, 'wb') as f:
                    f.write(b''.join(c.ljust(33, b'\x00') for c in commitments(m, s)))
                ok = 0
            finally:
                os._exit(ok)
        os.close(wr)
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
        expect(os.waitpid(pid, 0)[1] == 0 and data, 'fork', 'blinding in a forked child failed')
        outs.append({data[i:i + 33] for i in range(0, len(data), 33)})
        ctx.rec.count('forked')
    for i in range(len(outs)):
        for j in range(i):
            expect(not outs[i] & outs[j], 'repeated-fork', 'blindings in two forked children share a commitment or nonce')
            ctx.rec.ev()


def d_processes(ctx):
    """fresh processes with the same hash seed and seeded Python generators"""
    r = ctx.rng
    s = ct.scene(r, bits=3, issuances=0, nin=1, nout=3, blind=True, long_ok=False)
    code = ("import sys,random,pickle;random.seed(7)\nfrom vmon import env,ct,bridge as B\nenv.import_repo(sys.argv[1])\ns=pickle.load(sys.stdin.buffer)\n"
            "import random as R;R.seed(7)\nres,tx=ct.blind(s)\nsys.stdout.write(' '.join(v.hex() for k,o in zip(s['keys'],ct.full(B.m_tx(tx),s['tx'])['vout']) if k for v in (o['asset'],o['value'],o['nonce'])))")
    import pickle
    outs = []
    for _ in range(3):
        p = subprocess.run([sys.executable, '-B', '-c', code, ctx.native], input=pickle.dumps(s), capture_output=True, env=env.worker_env())
        expect(p.returncode == 0 and p.stdout, 'process', 'blinding in a fresh process failed: %s' % p.stderr[-500:])
        outs.append(set(p.stdout.split()))
    for i in range(3):
        for j in range(i):
            expect(not outs[i] & outs[j], 'repeated-process', 'blindings in two processes share a commitment or nonce')
            ctx.rec.ev()


def d_source_use(ctx):
    """the default draws from the operating system: nothing but its source stands between two equal processes (checked by equality above);
    a given source is used for all draws and the operating system's for none"""
    r = ctx.rng
    for _ in range(20):
        s = ct.scene(r, bits=3, issuances=.5, long_ok=False)
        seed = r.randbytes(4)
        a = ct.must(s, None, ct.Draws(seed))[1].serialize()
        random.seed(5)
        b = ct.must(s, None, ct.Draws(seed))[1].serialize()
        same(a, b, 'not-reproduced', 'the same randomness gave another transaction')
        # the order of draws does not matter to their use: a source that answers by position only
        ctx.rec.ev()


def d_identical_outputs(ctx):
    """identical outputs to one key share nothing"""
    r = ctx.rng
    a, k = r.randbytes(32), ct.scalar(r)
    n = 12
    s = {'tx': {'version': 2, 'vin': [{'hash': r.randbytes(32), 'n': 0, 'script': b'', 'seq': 0, 'issuance': None, 'pegin': False}],
                'vout': [{'asset': b'\x01' + a, 'value': ct.val(5), 'nonce': b'', 'script': b'\x51'} for _ in range(n)], 'locktime': 0, 'winwit': None, 'woutwit': None},
         'ins': [{'asset': a, 'amount': 5 * n, 'bf': ct.scalar(r), 'abf': ct.scalar(r)}], 'keys': [k] * n, 'iss': [(None, None)], 'aux': None, 'strict': True, 'exp': 0, 'bits': 3}
    for src in (None, ct.Draws(b'q')):
        res, tx = ct.must(s, None, src)
        m = ct.full(B.m_tx(tx), s['tx'])
        for f in ('asset', 'value', 'nonce'):
            expect(len({o[f] for o in m['vout']}) == n, 'identical-' + f, 'two outputs of one transaction share their %s' % f)
        for f in ('range', 'surj'):
            expect(len({w[f] for w in m['woutwit']}) == n, 'identical-' + f, 'two outputs of one transaction share their %s proof' % f)
        expect(len({bytes(x.data) for x in list(res.blinding_factors) + list(res.asset_blinding_factors)}) == 2 * n, 'identical-factors', 'factors repeat')
        ctx.rec.ev(6)


def d_siblings(ctx):
    """transactions that differ in one thing each, from the same random source: every secret is still a draw of this blinding"""
    ct.same_source(ctx, lambda s, res, tx, draws, seen: account(ctx, s, ct.full(B.m_tx(tx), s['tx']), res, draws), 3)


DIRECTED = [d_fork, d_processes, d_source_use, d_identical_outputs, d_siblings]
