"""C01: selection of the chain."""
import sys, threading, time

from vmon import ct, gen, bridge as B
from vmon.props import _sig as G
from vmon.ref import addr as A
from vmon.rec import expect, same, Violation

TECHNIQUE = 'online trace monitor: every thread keeps the stack of its selections as the specification does, and each probe of the real state must agree with its top'
RULE = """Evaluation = one probe of one thread: the selected parameters, the class a generic name creates, the address, key or tree it gives, or bytes, id,
class and signature hash of an Elements object; each compared with the table of the chain the thread has selected.  Workload: 1 to 6 threads that enter,
leave (also by exception, from inside generators) and replace selections at random to depth 6, with tiny switch intervals and random pauses; all ordered
triples of chains are nested in the directed part.  Distinct = (chain, probe, enclosing chains, threads) and sequences of 4 successive events of different
threads."""
QUICK = 110
REQUIRED = {'probe': 25000, 'left': 5000, 'left by exception': 1000, 'threads': 200, 'objects': 15000}
ELEM = ('elements', 'elements/elementsregtest', 'elements/liquidv1')
BTC = ('bitcoin', 'bitcoin/mainnet', 'bitcoin/testnet', 'bitcoin/regtest', 'bitcoin/signet')
CHAINS = ELEM + BTC
NAMES = {'elements': ('elements', 'Elements', 7041, 'elementsregtest', 'elementsregtest'), 'elements/liquidv1': ('elements/liquidv1', 'Elements liquidv1', 7042, 'liquidv1', 'liquidv1'),
         'bitcoin': ('bitcoin', 'Bitcoin', 8332, '', 'main'), 'bitcoin/testnet': ('bitcoin/testnet', 'Bitcoin testnet', 18332, 'testnet3', 'test'),
         'bitcoin/regtest': ('bitcoin/regtest', 'Bitcoin regtest', 18443, 'regtest', 'regtest'), 'bitcoin/signet': ('bitcoin/signet', 'Bitcoin signet', 38332, 'signet', 'signet')}
NAMES['elements/elementsregtest'], NAMES['bitcoin/mainnet'] = NAMES['elements'], NAMES['bitcoin']
GENERIC = [m + n for n in ('Transaction', 'TxIn', 'TxOut', 'OutPoint', 'TxWitness', 'TxInWitness') for m in ('', 'Mutable')]
SPK = {k: A.script(k, b'\1' * A.SIZE[k]) for k in A.KINDS}
TAGS = {}


def family(chain):
    if chain in A.CHAIN:
        return A.CHAIN[chain]['family']
    return {'bitcoin': 'Bitcoin', 'bitcoin/mainnet': 'Bitcoin', 'bitcoin/testnet': 'BitcoinTestnet', 'bitcoin/regtest': 'BitcoinRegtest', 'bitcoin/signet': 'BitcoinSignet'}[chain]


class Boom(Exception):
    pass


def objects(r):
    """Elements objects and what is known of them"""
    from bitcointx import ChainParams
    with ChainParams('elements'):
        core = B.L()
        t = gen.tx(r, lo=1, many=0)
        tx = B.lib_tx(t, r.random() < .5)
        spent = [B.lib_out(gen.txout(r)) for _ in t['vin']]
        sc = B.lib_script(A.script('P2PKH', r.randbytes(20)))
        val = core.CConfidentialValue(gen.value(r))
        o = {'tx': tx, 'spent': spent, 'sc': sc, 'val': val, 'i': r.randrange(len(t['vin'])), 'gh': r.randbytes(32), 'raw': tx.serialize(), 'txid': tx.GetTxid(), 'hash': tx.GetHash(),
             'vsize': tx.get_virtual_size(), 'out': [x.serialize() for x in spent]}
        kind = r.choice(A.ALL)
        o['chain'] = r.choice(ELEM)
        o['text'] = A.encode(o['chain'], kind, (ct.pub(ct.scalar(r)) if kind[0] == 'c' else b'') + r.randbytes(A.SIZE[kind.lstrip('c')]))
        o['adr'] = A.find(A.cls_name(o['chain'], kind))(o['text'])
        o['spk'] = A.script(kind, bytes(o['adr']))
    for ht in (1, 2, 0x81):
        o['sig', ht] = [hashed(o, f, ht) for f in range(3)]
    return o


def hashed(o, f, ht):
    from bitcointx import ChainParams
    with ChainParams('elements'):
        return sighash(o, f, ht)


def sighash(o, f, ht):
    from bitcointx.core.script import SIGVERSION_WITNESS_V0, SIGHASH_Type
    try:
        if f == 0:
            return bytes(o['sc'].sighash(o['tx'], o['i'], ht))
        if f == 1:
            return bytes(o['sc'].sighash(o['tx'], o['i'], ht, amount=o['val'], sigversion=SIGVERSION_WITNESS_V0))
        return bytes(o['sc'].sighash_schnorr(o['tx'], o['i'], o['spent'], hashtype=None if ht == 2 else SIGHASH_Type(ht), genesis_block_hash=o['gh']))
    except Exception as e:
        return 'refused: ' + type(e).__name__


def probe(r, chain):
    """(what, got, wanted)"""
    from bitcointx import get_current_chain_params
    import bitcointx.core as c, bitcointx.core.script as s, bitcointx.wallet as w
    el = chain in ELEM
    coin, fam = 'Elements' if el else 'Bitcoin', family(chain)
    k = r.randrange(8)
    if k == 0:
        p = get_current_chain_params()
        return 'params', (p.name, p.readable_name, p.RPC_PORT, p.get_datadir_extra_name(), p.get_network_id()), NAMES[chain]
    if k == 1:
        n = r.choice(GENERIC)
        x = getattr(c, 'C' + n)()
        return 'class', (type(x).__name__, hasattr(x, 'nAsset') if n.endswith('TxOut') else None), ('C%s%s' % (coin, n), el if n.endswith('TxOut') else None)
    if k == 2:
        n = r.choice(A.KINDS)
        a = (w.CCoinAddress if r.random() < .5 else getattr(w, n + 'CoinAddress')).from_scriptPubKey(s.CScript(SPK[n]))
        want = ('%s%sAddress' % (n, fam), A.encode(chain, n, b'\1' * A.SIZE[n]) if el else str(a), SPK[n])
        return 'address', (type(a).__name__, str(a), bytes(a.to_scriptPubKey())), want
    if k == 3:
        key = w.CCoinKey.from_secret_bytes(b'\1' * 32)
        x = w.CCoinExtKey.from_seed(b'\1' * 32)
        return 'keys', (type(key).__name__, type(x).__name__, type(x.neuter()).__name__, type(x.derive(1).priv).__name__, str(x)[:4]), \
            ('C%sKey' % fam, 'C%sExtKey' % fam, 'C%sExtPubKey' % fam, 'C%sKey' % fam, 'tprv' if chain not in ('bitcoin', 'bitcoin/mainnet', 'elements/liquidv1') else 'xprv')
    if k == 4:
        t = s.TaprootScriptTree([s.CScript(b'\x51')], internal_pubkey=w.CCoinKey.from_secret_bytes(b'\1' * 32).xonly_pub)
        return 'tree', (type(t).__name__, bytes(t.output_pubkey), type(t.leaves[0]).__name__ if hasattr(t, 'leaves') else None), \
            ('Taproot%sScriptTree' % coin, TAGS[el], None if not hasattr(t, 'leaves') else type(t.leaves[0]).__name__)
    if k == 5:
        return 'script', type(s.CScript(b'\x51')).__name__, 'C%sScript' % coin
    if k == 6:
        p = c.CoreCoinParams
        return 'constants', (p.TAPROOT_LEAF_TAPSCRIPT, p.taptweak_hasher(b'')), (0xc4 if el else 0xc0, TAGS['tag', el])
    mut = r.random() < .5
    m = 'C%sMutable%s' if mut else 'C%s%s'
    raw = TAGS['raw', el]
    t = (c.CMutableTransaction if mut else c.CTransaction).deserialize(raw)
    return 'read', (t.serialize(), type(t).__name__, type(t.vin[0]).__name__, type(t.vout[0]).__name__), (raw,) + tuple(m % (coin, x) for x in ('Transaction', 'TxIn', 'TxOut'))


def setup(ctx):
    import hashlib
    from vmon.ref import ec
    from bitcointx import ChainParams
    for el, sfx, leafv in ((True, b'/elements', 0xc4), (False, b'', 0xc0)):
        def tag(n, m, sfx=sfx):
            t = hashlib.sha256(n + sfx).digest()
            return hashlib.sha256(t + t + m).digest()
        x = ec.ser_x(ec.mul(int.from_bytes(b'\1' * 32, 'big')))
        leaf = tag(b'TapLeaf', bytes([leafv, 1, 0x51]))
        TAGS[el] = ec.ser_x(ec.add(ec.lift_x(x), ec.mul(int.from_bytes(tag(b'TapTweak', x + leaf), 'big'))))
        TAGS['tag', el] = tag(b'TapTweak', b'')
    # the smallest transactions with one input and output
    TAGS['raw', False] = (2).to_bytes(4, 'little') + b'\1' + b'\7' * 32 + bytes(4) + b'\0' + b'\xff' * 4 + b'\1' + (5).to_bytes(8, 'little') + b'\1\x51' + bytes(4)
    TAGS['raw', True] = (2).to_bytes(4, 'little') + b'\0\1' + b'\7' * 32 + bytes(4) + b'\0' + b'\xff' * 4 + b'\1\1' + b'\3' * 32 + b'\1' + (5).to_bytes(8, 'big') + b'\0\1\x51' + bytes(4)


def observe(r, o, chain):
    """(what, got, wanted) of an Elements object while a chain is selected"""
    core = B.L()
    k = r.randrange(6)
    if k == 0:
        return 'bytes', (o['tx'].serialize(), o['tx'].GetTxid(), o['tx'].GetHash(), o['tx'].get_virtual_size()), (o['raw'], o['txid'], o['hash'], o['vsize'])
    if k == 1:
        cls = r.choice((core.CElementsTransaction, core.CElementsMutableTransaction))
        t = cls.deserialize(o['raw'])
        m = 'Mutable' if cls is core.CElementsMutableTransaction else ''
        w = t.vin[0]
        return 'read', (t.serialize(), type(t), type(w).__name__, type(w.prevout).__name__, type(t.wit).__name__, {type(x).__name__ for x in t.vout}), \
            (o['raw'], cls, 'CElements%sTxIn' % m, 'CElements%sOutPoint' % m, 'CElements%sTxWitness' % m, {'CElements%sTxOut' % m} if t.vout else set())
    if k == 2:
        a, b = o['tx'].to_mutable(), o['tx'].to_immutable()
        return 'convert', (a.serialize(), b.serialize(), type(a), type(b), b.GetTxid()), (o['raw'], o['raw'], core.CElementsMutableTransaction, core.CElementsTransaction, o['txid'])
    if k == 3:
        a = o['adr']
        return 'address', (str(a), bytes(a.to_scriptPubKey()), type(a)(str(a)) == a, str(type(a).from_bytes(bytes(a)))), (o['text'], o['spk'], True, o['text'])
    if k == 4:
        return 'outputs', [(x.serialize(), x.to_mutable().serialize()) for x in o['spent']], [(x, x) for x in o['out']]
    f, ht = r.randrange(3), r.choice((1, 2, 0x81))
    got = sighash(o, f, ht)
    want = o['sig', ht][f]
    if isinstance(got, str) and chain not in ELEM:
        return 'sighash refused', None, None
    return 'sighash', got, want


class Trace:
    def __init__(s, rec, n):
        s.rec, s.n, s.log, s.lock, s.bad = rec, n, [], threading.Lock(), []

    def ev(s, who, what):
        # append is atomic
        s.log.append((who, what))


def walker(who, r, objs, tr, base, steps, rec_calls):
    from bitcointx import ChainParams, select_chain_params, get_current_chain_params
    stack = [base]

    def look(n):
        for _ in range(n):
            if r.random() < .6:
                what, got, want = probe(r, stack[-1])
                kind = 'probe'
            else:
                what, got, want = observe(r, r.choice(objs), stack[-1])
                kind = 'objects'
            rec_calls.append((kind, what, tuple(stack[-3:])))
            tr.ev(who, (stack[-1], what))
            if got != want:
                tr.bad.append((kind + '-' + what, 'thread %d of %d, selections %s: %s gave %r, expected %r' % (who, tr.n, stack, what, got, want)))
                raise Stop

    def pause():
        if tr.n > 1 and r.random() < .3:
            time.sleep(r.choice((0, 0, 1e-5, 1e-4)))

    def go(depth, steps):
        while steps > 0:
            steps -= 1
            pause()
            k = r.random()
            if k < .5 and depth < 6:
                chain = r.choice(CHAINS)
                sort = r.randrange(3)
                arg = chain
                if sort:
                    from bitcointx import find_chain_params
                    arg = find_chain_params(name=chain)
                    if sort == 2:
                        arg = arg()
                end = r.random()
                inner = r.randrange(1, 4)
                try:
                    with ChainParams(arg) as p:
                        stack.append(chain)
                        tr.ev(who, 'enter')
                        if p is not get_current_chain_params():
                            tr.bad.append(('enter', 'the parameters given on entering are not the selected ones'))
                        look(r.randrange(1, 3))
                        go(depth + 1, inner)
                        if end < .3:
                            raise Boom
                        if end < .4:
                            # a selection without nesting is undone with the enclosing one
                            other = r.choice(CHAINS)
                            select_chain_params(other)
                            stack[-1] = other
                            look(1)
                        look(1)
                except Boom:
                    rec_calls.append(('left by exception', 'exception', ()))
                    if end >= .3:
                        raise
                stack.pop()
                rec_calls.append(('left', 'leave', ()))
                tr.ev(who, 'leave')
                look(1)
            elif k < .57:
                try:
                    select_chain_params(r.choice(('dogecoin', '', 'Elements', 'elements/', 'liquidv1', 7)))
                except (ValueError, TypeError):
                    pass
                else:
                    tr.bad.append(('unknown', 'an unknown chain was selected'))
                look(1)
            elif k < .65 and depth:
                other = r.choice(CHAINS)
                select_chain_params(other)
                stack[-1] = other
                look(1)
            else:
                look(1)

    class Stop(Exception):
        pass
    try:
        if tr.n > 1:
            # a new thread begins with the default parameters, whatever its creator selected, and has to select before it uses anything
            if get_current_chain_params().name != 'bitcoin':
                tr.bad.append(('new thread', 'a new thread has %r selected' % get_current_chain_params()))
            select_chain_params(base)
        look(2)
        go(0, steps)
        look(2)
    except Stop:
        pass
    except Exception as e:
        import traceback
        tr.bad.append(('unexpected-' + type(e).__name__, traceback.format_exc()[-800:]))


def episode(ctx):
    import random
    from bitcointx import ChainParams, get_current_chain_params
    r, rec = ctx.rng, ctx.rec
    n = r.choice((1, 2, 2, 3, 4, 6))
    tr = Trace(rec, n)
    objs = [objects(r) for _ in range(2)]
    calls = [[] for _ in range(n)]
    seeds = [r.getrandbits(64) for _ in range(n)]
    steps = 24 // n + 4
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice((1e-6, 1e-5, 1e-4)))
    try:
        outer = r.choice(CHAINS)
        with ChainParams(outer):
            if n == 1:
                walker(0, random.Random(seeds[0]), objs, tr, outer, steps, calls[0])
            else:
                ts = [threading.Thread(target=walker, args=(i, random.Random(seeds[i]), objs, tr, r.choice(CHAINS), steps, calls[i])) for i in range(n)]
                for t in ts:
                    t.start()
                while any(t.is_alive() for t in ts):
                    what, got, want = probe(r, outer)
                    same(got, want, 'main', 'what the thread that started others has selected (%s)' % what)
                    rec.ev()
                    time.sleep(1e-4)
                for t in ts:
                    t.join()
            same(get_current_chain_params().name, NAMES[outer][0], 'outer', 'selection after everything within it ended')
    finally:
        sys.setswitchinterval(old)
    if tr.bad:
        expect(False, tr.bad[0][0], tr.bad[0][1])
    for c in calls:
        for kind, what, stack in c:
            rec.ev(kind in ('probe', 'objects'))
            rec.count(kind)
            rec.feat(kind, what, stack[-2:], n > 1)
    if n > 1:
        w = [i for i, _ in tr.log]
        for i in range(len(w) - 3):
            if len(set(w[i:i + 4])) > 1:
                rec.feat('order', tuple((a, b if isinstance(b, str) else b[0]) for a, b in tr.log[i:i + 4]))
    rec.count('threads', n)
    rec.sample(threads=n, events=len(tr.log), last=repr(tr.log[-4:]))


def nested(ctx):
    """all ordered triples of chains, left normally and by exception"""
    from bitcointx import ChainParams
    r = ctx.rng
    objs = [objects(r)]

    def look(chain, n=1):
        for _ in range(n):
            what, got, want = probe(r, chain)
            same(got, want, 'probe-' + what, 'probe %s under %s' % (what, chain))
            what, got, want = observe(r, objs[0], chain)
            same(got, want, 'objects-' + what, 'Elements object (%s) under %s' % (what, chain))
            ctx.rec.ev(2)
            ctx.rec.count('probe')
            ctx.rec.count('objects')
    for a in CHAINS:
        for b in CHAINS:
            for c in CHAINS:
                for boom in (0, 1, 2):
                    with ChainParams(a):
                        look(a)
                        try:
                            with ChainParams(b):
                                try:
                                    with ChainParams(c):
                                        look(c)
                                        if boom:
                                            raise Boom
                                except Boom:
                                    look(b)
                                    if boom > 1:
                                        raise
                                look(b)
                        except Boom:
                            pass
                        look(a)
                    ctx.rec.count('left', 3)
    ctx.rec.count('complete')


DIRECTED = [nested]
