"""Between the model (plain dicts) and the objects of the code under test: public constructors and attributes only."""
from .ref import codec as C


def L():
    import elementstx.core as core
    return core


def u256(b):
    from bitcointx.core import Uint256
    return Uint256(b)


def lib_issuance(i):
    core = L()
    if i is None:
        return core.CAssetIssuance()
    return core.CAssetIssuance(u256(i['nonce']), u256(i['entropy']), core.CConfidentialValue(i['amount']),
                               core.CConfidentialValue(i['keys']))


def lib_in(i, mutable=False):
    core = L()
    op = (core.CElementsMutableOutPoint if mutable else core.CElementsOutPoint)(i['hash'], i['n'])
    return (core.CElementsMutableTxIn if mutable else core.CElementsTxIn)(
        op, lib_script(i['script']), i['seq'], lib_issuance(i['issuance']), i['pegin'])


def lib_script(b):
    from elementstx.core.script import CElementsScript
    return CElementsScript(b)


def lib_out(o, mutable=False):
    core = L()
    return (core.CElementsMutableTxOut if mutable else core.CElementsTxOut)(
        core.CConfidentialValue(o['value']), lib_script(o['script']), core.CConfidentialAsset(o['asset']),
        core.CConfidentialNonce(o['nonce']))


def lib_inwit(w, mutable=False):
    from bitcointx.core.script import CScriptWitness
    core = L()
    return (core.CElementsMutableTxInWitness if mutable else core.CElementsTxInWitness)(
        CScriptWitness(w['stack']), w['amount_proof'], w['keys_proof'], CScriptWitness(w['pegin_stack']))


def lib_outwit(w, mutable=False):
    core = L()
    return (core.CElementsMutableTxOutWitness if mutable else core.CElementsTxOutWitness)(w['surj'], w['range'])


def lib_tx(t, mutable=False, parts_mutable=None):
    core = L()
    pm = mutable if parts_mutable is None else parts_mutable
    wit = None
    if t['winwit'] is not None or t['woutwit'] is not None:
        wit = (core.CElementsMutableTxWitness if pm else core.CElementsTxWitness)(
            [lib_inwit(w, pm) for w in t['winwit'] or ()], [lib_outwit(w, pm) for w in t['woutwit'] or ()])
        if wit.is_null():
            wit = None
    return (core.CElementsMutableTransaction if mutable else core.CElementsTransaction)(
        [lib_in(i, pm) for i in t['vin']], [lib_out(o, pm) for o in t['vout']], t['locktime'], t['version'], wit)


def m_issuance(i):
    return {'nonce': bytes(i.assetBlindingNonce.data), 'entropy': bytes(i.assetEntropy.data),
            'amount': bytes(i.nAmount.commitment), 'keys': bytes(i.nInflationKeys.commitment)}


def m_in(i):
    return {'hash': bytes(i.prevout.hash), 'n': i.prevout.n, 'script': bytes(i.scriptSig), 'seq': i.nSequence,
            'issuance': m_issuance(i.assetIssuance), 'pegin': i.is_pegin}


def m_out(o):
    return {'asset': bytes(o.nAsset.commitment), 'value': bytes(o.nValue.commitment),
            'nonce': bytes(o.nNonce.commitment), 'script': bytes(o.scriptPubKey)}


def m_inwit(w):
    return {'amount_proof': bytes(w.issuanceAmountRangeproof), 'keys_proof': bytes(w.inflationKeysRangeproof),
            'stack': [bytes(x) for x in w.scriptWitness.stack], 'pegin_stack': [bytes(x) for x in w.pegin_witness.stack]}


def m_outwit(w):
    return {'surj': bytes(w.surjectionproof), 'range': bytes(w.rangeproof)}


def m_tx(tx):
    return {'version': tx.nVersion, 'vin': [m_in(i) for i in tx.vin], 'vout': [m_out(o) for o in tx.vout],
            'locktime': tx.nLockTime, 'winwit': [m_inwit(w) for w in tx.wit.vtxinwit],
            'woutwit': [m_outwit(w) for w in tx.wit.vtxoutwit]}


def parse_errors():
    from bitcointx.core.serialize import SerializationError
    return (SerializationError, ValueError)
