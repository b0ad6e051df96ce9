"""Transactions made by Elements Core (copied from the project's own test vectors) for use as corpus."""
import functools
import json
import lzma
import os

from . import env


@functools.lru_cache(None)
def vectors():
    with lzma.open(os.path.join(env.VERIF, 'data', 'vectors.json.xz')) as f:
        return json.load(f)


@functools.lru_cache(None)
def transactions():
    v = vectors()
    r = [t['hex'] for t in v['txs']]
    for b in v['blinding'] + list(v['split'].values()):
        r += [b['blinded']['hex'], b['unblinded']['hex']] + ([b['signed_hex']] if 'signed_hex' in b else [])
    return [bytes.fromhex(h) for h in dict.fromkeys(r)]
