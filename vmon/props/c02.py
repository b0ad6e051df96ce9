"""C02: using elementstx leaves Bitcoin as it was."""
import json
import os
import random
import subprocess
import sys

from vmon import btc, ct, gen, env, bridge as B
from vmon.props import _battery as Y
from vmon.rec import expect, same

TECHNIQUE = 'differential monitor against a second process that never imports elementstx: every observable of a battery of Bitcoin operations must agree'
NATIVE = True
RULE = """Evaluation = one Bitcoin operation (parameters, constants, a transaction written, read, damaged, converted or shown; script tests, texts and
conversions; legacy, version 0 and taproot hashes; keys, extended keys, addresses of all kinds, classes that generic names give; signatures judged by the
script interpreter; script trees; partially signed transactions; foreign addresses) made in this process, where elementstx is in use, and compared with the
same operation made by a process which never imports it; or one attempt to mix objects of the two families.  Elements work of all kinds, blinding included, is
done before and, in half of the episodes, between the operations, in nested selections left also by exceptions.  Classes of Bitcoin itself are also used while
an Elements chain is selected.  Distinct = (operation, chain, setting)."""
QUICK = 320
REQUIRED = {'operation': 10000, 'specific under elements': 600, 'interleaved': 3000, 'elements-work': 1200, 'foreign-work': 8000, 'mixed-refused': 800, 'unequal': 250}
ELEM = ('elements', 'elements/elementsregtest', 'elements/liquidv1')
WORK = ('tx', 'bad_bytes', 'sighash', 'taproot', 'address', 'keys', 'issuance', 'script', 'tree')


def setup(ctx):
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'LD_PRELOAD', 'ASAN_OPTIONS')}
    e['PYTHONPATH'] = env.VERIF
    ctx.data['p'] = subprocess.Popen([sys.executable, '-B', '-m', 'vmon.btc'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=e, cwd='/')


def finish(ctx):
    p = ctx.data.pop('p')
    p.stdin.close()
    p.wait()


def plain(ctx, chain, what, seed):
    p = ctx.data['p']
    p.stdin.write(json.dumps({'chain': chain, 'what': what, 'seed': seed}) + '\n')
    p.stdin.flush()
    return [tuple(x) for x in json.loads(p.stdout.readline())]


class Left(Exception):
    pass


def elements_work(ctx, r, blind=False):
    from bitcointx import ChainParams
    try:
        with ChainParams(r.choice(ELEM)):
            ops = [getattr(Y, 'op_' + r.choice(WORK))]
            if blind:
                ops.append(Y.op_blind)
            for f in ops:
                Y.attempt(lambda: f(random.Random(r.getrandbits(32))))
            ctx.rec.count('elements-work', len(ops))
            if r.random() < .3:
                raise Left
    except Left:
        pass


def foreign_work(ctx, r):
    """objects of Elements are used while another chain is selected"""
    from bitcointx import ChainParams, get_current_chain_params
    import bitcointx.core as c
    import bitcointx.core.script as s
    import elementstx.core as e
    import elementstx.wallet as w
    with ChainParams(r.choice(ELEM)):
        et = B.lib_tx(gen.tx(r, lo=1, many=0))
        key = w.CElementsKey.from_secret_bytes(r.randbytes(32))
        adr = w.P2PKHElementsAddress.from_pubkey(key.pub)
        if r.random() < .5:
            adr = w.P2WPKHElementsConfidentialAddress.from_unconfidential(w.P2WPKHElementsAddress.from_pubkey(key.pub), key.pub)
        sp = [e.CElementsTxOut(e.CConfidentialValue(r.randrange(10 ** 9)), adr.to_scriptPubKey(), e.CConfidentialAsset(e.CAsset(r.randbytes(32)))) for _ in et.vin]
    before = get_current_chain_params()
    spk = adr.to_scriptPubKey()
    i, ht = r.randrange(len(et.vin)), s.SIGHASH_Type(r.choice((1, 2, 3, 0x81, 0x82, 0x83)))
    uses = [et.serialize, lambda: repr(et), et.to_mutable, et.GetTxid, lambda: e.CElementsTransaction.deserialize(et.serialize()), lambda: spk.sighash(et, i, ht),
            lambda: spk.sighash(et, i, ht, amount=sp[0].nValue, sigversion=s.SIGVERSION_WITNESS_V0), lambda: spk.sighash_schnorr(et, i, sp, hashtype=ht, genesis_block_hash=bytes(32)),
            lambda: repr(adr), lambda: type(adr)(str(adr)), lambda: w.CElementsAddress(str(adr)), lambda: spk.derive_blinding_key(key), lambda: sp[0].unblind_confidential_pair(key, bytes(100)), lambda: e.CElementsTxOut(),
            lambda: e.blind_transaction(et.to_mutable(), input_descriptors=[e.BlindingInputDescriptor(1, e.CAsset(bytes(32)), c.Uint256(), c.Uint256())] * len(et.vin), output_pubkeys=[key.pub] * len(et.vout)),
            lambda: w.CElementsExtKey.from_seed(bytes(32)).neuter(), lambda: e.generate_asset_entropy(et.vin[0].prevout, bytes(32)), lambda: et == et.to_mutable(), lambda: hash(et)]
    for f in r.sample(uses, r.randrange(1, len(uses))):
        Y.attempt(f)
        ctx.rec.count('foreign-work')
    expect(get_current_chain_params() is before, 'selection', 'the chain that is selected was changed by using objects of Elements', now=str(get_current_chain_params()))
    ctx.rec.ev()


def judge(ctx, chain, what, under, seed, inter):
    from bitcointx import ChainParams
    r, rec = ctx.rng, ctx.rec
    want = plain(ctx, chain, what, seed)
    if inter:
        def between():
            if r.random() < .5:
                btc.Log.between, keep = None, btc.Log.between
                try:
                    r.choice((elements_work, foreign_work))(ctx, r)
                finally:
                    btc.Log.between = keep
        btc.Log.between = between
    try:
        with ChainParams(under):
            got = btc.run(what, seed)
    finally:
        btc.Log.between = None
    for (a, x), (b, y) in zip(got + [('end', '')], want + [('end', '')]):
        same(a, b, 'operations', 'other operations were possible: %s' % x, chain=chain, what=what, seed=seed, instead=y)
        same(x, y, 'bitcoin-' + a.replace(' ', '-'), 'the Bitcoin operation %r gives something else with elementstx in use' % a, chain=chain, under=under, what=what, seed=seed)
        rec.feat(a, what, under, inter, x.startswith('raised'))
    rec.ev(len(got))
    rec.sample(chain=chain, under=under, interleaved=inter, last=got[-1])
    rec.count('stopped', got[-1][0] == 'stopped')
    rec.count('operation', len(got))
    if inter:
        rec.count('interleaved', len(got))
    if under in ELEM:
        rec.count('specific under elements', len(got))


def episode(ctx):
    r = ctx.rng
    for _ in range(r.randrange(3)):
        elements_work(ctx, r, r.random() < .1)
    k = r.random()
    chain = r.choice(btc.CHAINS)
    seed = r.getrandbits(40)
    if k < .6:
        judge(ctx, chain, 'generic', chain, seed, r.random() < .5)
    else:
        judge(ctx, 'bitcoin', 'specific', r.choice(ELEM + btc.CHAINS), seed, r.random() < .5)
    if r.random() < .4:
        mixing(ctx, r)


def mixing(ctx, r):
    """parts of one family in objects of the other"""
    from bitcointx import ChainParams
    import bitcointx.core as c
    import bitcointx.core.script as s
    import elementstx.core as e
    rec = ctx.rec
    with ChainParams(r.choice(btc.CHAINS)):
        bt = btc.rtx(r)
        while not bt.wit.vtxinwit:
            bt = btc.rtx(r)
    with ChainParams(r.choice(ELEM)):
        et = B.lib_tx(gen.tx(r, lo=1, many=0))
        while not et.vout or et.wit.is_null():
            et = B.lib_tx(gen.tx(r, lo=1, many=0))
    bi, bo, bw = r.choice(bt.vin), r.choice(bt.vout), bt.wit
    ei, eo, ew = r.choice(et.vin), r.choice(et.vout), et.wit
    bs, es = bi.scriptSig, ei.scriptSig
    if r.random() < .5:
        bt, bi, bo, bw, et, ei, eo, ew = [q.to_mutable() for q in (bt, bi, bo, bw, et, ei, eo, ew)]

    def append(tx, vec, x):
        m = tx.to_mutable()
        getattr(m, vec).append(x.to_mutable())
        m.serialize()
    spend = e.CElementsScript(b'\x76\xa9\x14' + r.randbytes(20) + b'\x88\xac')
    tries = {
        'elements tx of bitcoin input': lambda: e.CElementsTransaction([bi], [eo]),
        'elements tx of bitcoin output': lambda: e.CElementsTransaction([ei], [bo]),
        'elements tx of bitcoin witness': lambda: e.CElementsTransaction([ei], [eo], witness=bw),
        'bitcoin tx of elements input': lambda: c.CBitcoinTransaction([ei], [bo]),
        'bitcoin tx of elements output': lambda: c.CBitcoinTransaction([bi], [eo]),
        'bitcoin tx of elements witness': lambda: c.CBitcoinTransaction([bi], [bo], witness=ew),
        'elements input of bitcoin script': lambda: e.CElementsTxIn(ei.prevout, bs),
        'elements output of bitcoin script': lambda: e.CElementsTxOut(eo.nValue, bs),
        'elements output of a number': lambda: e.CElementsTxOut(5, es),
        'bitcoin output of elements script': lambda: c.CBitcoinTxOut(5, es),
        'bitcoin output of elements value': lambda: c.CBitcoinTxOut(e.CConfidentialValue(5), bs).serialize(),
        'elements from bitcoin tx': lambda: e.CElementsTransaction.from_tx(bt),
        'bitcoin from elements tx': lambda: c.CBitcoinTransaction.from_tx(et),
        'bitcoin from elements input': lambda: c.CBitcoinTxIn.from_txin(ei),
        'elements from bitcoin input': lambda: e.CElementsTxIn.from_txin(bi),
        'elements from bitcoin output': lambda: e.CElementsTxOut.from_txout(bo),
        'bitcoin from elements output': lambda: c.CBitcoinTxOut.from_txout(eo),
        'version 0 hash of bitcoin tx': lambda: spend.sighash(bt, 0, s.SIGHASH_ALL, amount=e.CConfidentialValue(5), sigversion=s.SIGVERSION_WITNESS_V0),
        'version 0 hash with a number': lambda: spend.sighash(et, 0, s.SIGHASH_ALL, amount=5, sigversion=s.SIGVERSION_WITNESS_V0),
        'taproot hash of bitcoin tx': lambda: spend.sighash_schnorr(bt, 0, [bo] * len(bt.vin), genesis_block_hash=bytes(32)),
        'taproot hash of bitcoin coins': lambda: spend.sighash_schnorr(et, 0, [bo] * len(et.vin), genesis_block_hash=bytes(32)),
        'blinding of bitcoin tx': lambda: e.blind_transaction(bt.to_mutable(), input_descriptors=[]),
        'bitcoin input added': lambda: append(et, 'vin', bi),
        'bitcoin output added': lambda: append(et, 'vout', bo),
        'elements output added': lambda: append(bt, 'vout', eo),
    }
    before = bt.serialize(), et.serialize()
    under = r.choice(ELEM + btc.CHAINS)
    with ChainParams(under):
        for n, f in tries.items():
            try:
                v = f()
            except Exception:
                rec.count('mixed-refused')
                rec.feat('mixed', n, under)
            else:
                if n == 'elements output of a number':       # a value may one day be made of it: it is not a part
                    continue
                expect(n.endswith(' added') and len(getattr(et if n[0] == 'b' else bt, 'vin' if 'input' in n else 'vout')) == 0, 'mixed', 'objects of two families were mixed: %s gave %r' % (n, v), under=under)
            rec.ev()
        for x, y in ((ei, bi), (eo, bo), (et, bt), (ei.prevout, bi.prevout), (et, c.CBitcoinTransaction()), (e.CElementsOutPoint(bi.prevout.hash, bi.prevout.n), bi.prevout)):
            expect(not (x == y) and x != y and not (y == x), 'equal', 'objects of two families are equal: %r, %r' % (x, y))
            rec.ev()
            rec.count('unequal')
    same((bt.serialize(), et.serialize()), before, 'mixed-changed', 'an attempt to mix objects has changed one')


def d_all(ctx):
    """every chain and setting, with and without interleaving"""
    for n, inter in enumerate((False, True)):
        for chain in btc.CHAINS:
            judge(ctx, chain, 'generic', chain, 'd%d' % n, inter)
        for under in ELEM + btc.CHAINS:
            judge(ctx, 'bitcoin', 'specific', under, 'd%d' % n, inter)


def d_blinding_before(ctx):
    for k in range(4):
        elements_work(ctx, ctx.rng, True)
        judge(ctx, btc.CHAINS[k], 'generic', btc.CHAINS[k], 'b', False)


DIRECTED = (d_all, d_blinding_before)
ASSUMPTIONS = ['python-bitcointx gives the same results in two processes of the same version (checked by comparing them)']
