"""Changes in place: the same change made to a model and to a mutable object of the code under test that was built from it."""
from vmon import gen, bridge as B


def tx(r, t, x, witness=True, same_size=False):
    """one change of a mutable transaction with mutable parts; returns its name"""
    kinds = ['version', 'locktime']
    nin, nout = len(t['vin']), len(t['vout'])
    kinds += ['seq', 'hash', 'n', 'script', 'issuance', 'pegin', 'prevout', 'input', 'swap-inputs'] * bool(nin)
    kinds += ['out-value', 'out-asset', 'out-nonce', 'out-script', 'output', 'swap-outputs', 'out-list'] * bool(nout)
    wi = t['winwit'] is not None and len(x.wit.vtxinwit) == nin
    wo = t['woutwit'] is not None and len(x.wit.vtxoutwit) == nout
    if t['winwit'] is None and t['woutwit'] is None and not same_size:
        kinds += ['add-output', 'add-input'] + ['drop-output'] * (nout > 1) + ['drop-input'] * (nin > 1)
    if witness and nin and wi:
        kinds += ['stack', 'pegin-stack', 'amount-proof', 'keys-proof', 'inwit'] * 2
    if witness and nout and wo:
        kinds += ['range', 'surj', 'outwit'] * 2
    k = r.choice(kinds)
    i, j = nin and r.randrange(nin), nout and r.randrange(nout)
    core = B.L()
    if k == 'version':
        t['version'] = x.nVersion = (t['version'] + r.choice((1, 2, 2 ** 30)) + 2 ** 31) % 2 ** 32 - 2 ** 31
    elif k == 'locktime':
        t['locktime'] = x.nLockTime = t['locktime'] ^ 1 << r.randrange(32)
    elif k == 'seq':
        t['vin'][i]['seq'] = x.vin[i].nSequence = t['vin'][i]['seq'] ^ 1 << r.randrange(32)
    elif k == 'hash':
        x.vin[i].prevout.hash = t['vin'][i]['hash'] = gen.h32(r)
    elif k == 'n':
        if t['vin'][i]['n'] <= 0x3fffffff:
            x.vin[i].prevout.n = t['vin'][i]['n'] = r.randrange(0x3fffffff)
    elif k == 'prevout':
        if t['vin'][i]['n'] <= 0x3fffffff:
            t['vin'][i].update(hash=gen.h32(r), n=r.randrange(9))
            x.vin[i].prevout = core.CElementsMutableOutPoint(t['vin'][i]['hash'], t['vin'][i]['n'])
    elif k == 'script':
        t['vin'][i]['script'] = gen.script(r)
        x.vin[i].scriptSig = B.lib_script(t['vin'][i]['script'])
    elif k == 'issuance':
        if t['vin'][i]['n'] <= 0x3ffffffe:
            t['vin'][i]['issuance'] = gen.issuance(r) if r.random() < .7 else None
            x.vin[i].assetIssuance = B.lib_issuance(t['vin'][i]['issuance'])
    elif k == 'pegin':
        if t['vin'][i]['n'] <= 0x3ffffffe:
            t['vin'][i]['pegin'] = x.vin[i].is_pegin = not t['vin'][i]['pegin']
    elif k == 'input':
        t['vin'][i] = gen.txin(r)
        x.vin[i] = B.lib_in(t['vin'][i], True)
    elif k == 'swap-inputs':
        a = r.randrange(nin)
        t['vin'][i], t['vin'][a] = t['vin'][a], t['vin'][i]
        x.vin[i], x.vin[a] = x.vin[a], x.vin[i]
    elif k in ('out-value', 'out-asset', 'out-nonce'):
        f = k[4:]
        t['vout'][j][f] = getattr(gen, f)(r)
        setattr(x.vout[j], 'n' + f.capitalize(), {'value': core.CConfidentialValue, 'asset': core.CConfidentialAsset, 'nonce': core.CConfidentialNonce}[f](t['vout'][j][f]))
    elif k == 'out-script':
        t['vout'][j]['script'] = gen.script(r)
        x.vout[j].scriptPubKey = B.lib_script(t['vout'][j]['script'])
    elif k == 'output':
        t['vout'][j] = gen.txout(r)
        x.vout[j] = B.lib_out(t['vout'][j], True)
    elif k == 'swap-outputs':
        a = r.randrange(nout)
        t['vout'][j], t['vout'][a] = t['vout'][a], t['vout'][j]
        x.vout[j], x.vout[a] = x.vout[a], x.vout[j]
    elif k == 'out-list':
        t['vout'][j] = gen.txout(r)
        x.vout = [B.lib_out(o, True) for o in t['vout']]
    elif k == 'add-output':
        t['vout'].append(gen.txout(r))
        x.vout.append(B.lib_out(t['vout'][-1], True))
    elif k == 'add-input':
        t['vin'].append(gen.txin(r))
        x.vin.append(B.lib_in(t['vin'][-1], True))
    elif k == 'drop-output':
        del t['vout'][j], x.vout[j]
    elif k == 'drop-input':
        del t['vin'][i], x.vin[i]
    elif k in ('stack', 'pegin-stack'):
        from bitcointx.core.script import CScriptWitness
        f = k.replace('-', '_')
        t['winwit'][i][f] = [r.randbytes(r.randrange(40)) for _ in range(r.randrange(1, 4))]
        setattr(x.wit.vtxinwit[i], {'stack': 'scriptWitness', 'pegin_stack': 'pegin_witness'}[f], CScriptWitness(t['winwit'][i][f]))
    elif k in ('amount-proof', 'keys-proof'):
        b = t['winwit'][i][k.replace('-', '_')] = r.randbytes(r.randrange(1, 60))
        setattr(x.wit.vtxinwit[i], {'amount-proof': 'issuanceAmountRangeproof', 'keys-proof': 'inflationKeysRangeproof'}[k], b)
    elif k == 'inwit':
        t['winwit'][i] = gen.inwit(r)
        x.wit.vtxinwit[i] = B.lib_inwit(t['winwit'][i], True)
    elif k in ('range', 'surj'):
        b = t['woutwit'][j][k] = r.randbytes(r.randrange(1, 60))
        setattr(x.wit.vtxoutwit[j], {'range': 'rangeproof', 'surj': 'surjectionproof'}[k], b)
    elif k == 'outwit':
        t['woutwit'][j] = gen.outwit(r)
        x.wit.vtxoutwit[j] = B.lib_outwit(t['woutwit'][j], True)
    return k


def start(r, lo=1):
    """a model and a mutable object for it, with complete witness vectors or none"""
    t = gen.tx(r, lo=lo, many=0)
    t['vin'], t['vout'] = [dict(i) for i in t['vin']], [dict(o) for o in t['vout']]
    if t['winwit'] is None or t['woutwit'] is None or r.random() < .3:
        t['winwit'] = t['woutwit'] = None
    else:
        t['winwit'] = [dict(w) for w in t['winwit']]
        t['woutwit'] = [dict(w) for w in t['woutwit']]
    return t, B.lib_tx(t, True)


def out(r, models, objs):
    """one change of one of several mutable outputs"""
    core = B.L()
    j = r.randrange(len(models))
    models[j] = o = dict(models[j])
    f = r.choice(('value', 'asset', 'nonce', 'script', 'all'))
    if f == 'all':
        o.update(gen.txout(r))
        objs[j] = B.lib_out(o, True)
        return f
    o[f] = getattr(gen, f)(r)
    if f == 'script':
        objs[j].scriptPubKey = B.lib_script(o[f])
    else:
        setattr(objs[j], 'n' + f.capitalize(), {'value': core.CConfidentialValue, 'asset': core.CConfidentialAsset, 'nonce': core.CConfidentialNonce}[f](o[f]))
    return f
