"""Shared by the signature hash checks"""
import copy

from vmon import gen, poke, bridge as B
from vmon.rec import same, expect
from vmon.ref import codec as C

ELEMENTS = ('elements', 'elements/liquidv1', 'elements/elementsregtest')
FOREIGN = ('bitcoin', 'bitcoin/testnet')


def snapshot(tx):
    return (tx.serialize(), C.norm(B.m_tx(tx)))


def unchanged(tx, before, what):
    same((tx.serialize(), C.norm(B.m_tx(tx))), before, 'changed-by-' + what, 'computing the hash changed the transaction')


def null_index(r, t):
    """now and then an input of the null index that has an issuance or is a peg-in; it can be made, and loses both when written"""
    if r.random() < .05:
        i = r.choice(t['vin'])
        i.update(n=0xffffffff, issuance=gen.issuance(r) if r.random() < .8 else None, pegin=r.random() < .5)


def siblings(ctx, one, steps=8):
    """immutable transactions that differ from each other in one place, hashed one after the other and again at the end, with the same arguments"""
    r = ctx.rng
    t, tx = poke.start(r)
    kept = []
    for k in range(steps):
        m, x = copy.deepcopy(t), tx.to_immutable()
        one(m, x)
        if r.random() < .6:
            kept.append((m, x))
        ctx.rec.feat('sibling', poke.tx(r, t, tx, same_size=True))
    for m, x in kept:
        one(m, x)
    ctx.rec.count('siblings')


def witness_program(s):
    return 4 <= len(s) <= 42 and (s[0] == 0 or 0x51 <= s[0] <= 0x60) and s[1] == len(s) - 2


def hashtype(r):
    return r.choice((1, 2, 3, 0x81, 0x82, 0x83)) if r.random() < .75 else r.choice(
        (0, 4, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x41, 0x80, 0x84, 0xa1, 0xc3, 255, -1, -128, 0x7fffffff, -2 ** 31, 0x101, 0x183))


def code(r):
    """a well-formed script with code separators now and then"""
    s = gen.script(r, valid=True)
    if r.random() < .4:
        cut = [0] + [e for op, d, b, e in ops(s)]
        p = r.choice(cut)
        s = s[:p] + b'\xab' * r.randrange(1, 3) + s[p:]
    if r.random() < .1:
        s += gen.push(gen.nbytes(r, r.choice((253, 300, 65536))))
    if r.random() < .1:
        s += gen.push(b'\xab' * 3)
    return s


def ops(s):
    from vmon.ref import sighash as H
    return H.ops(s)
