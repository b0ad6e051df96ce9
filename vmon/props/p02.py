"""P02: taproot outputs, control blocks, tweaks."""
from vmon import ct, gen, bridge as B
from vmon.ref import addr as A, ec, sighash as SH
from vmon.rec import expect, same
from vmon.props.a01 import CHAINS

TECHNIQUE = 'reference-model monitor: every tree is hashed, tweaked and spent next to a model of Elements taproot written from its specification; control blocks are verified as consensus does'
RULE = """Evaluation = one observation of one tree or key: root, output key, parity, script, path, version and control block of a leaf, a control block
verified from the leaf to the output key, address and script of the output, a key-path or script-path signature verified by own BIP340 code over the digest
of the model, or one refused misuse.  Trees of 1 to 20 scripts in random nested shapes (lists, single-script subtrees, own leaf versions), scripts of any
length, keys with even and odd points; Elements chains selected.  Directed: all list sizes to 33 and combs to depth 40.  Distinct = (shape, depth, version, parity)."""
QUICK = 700
REQUIRED = {'tree': 700, 'control': 4000, 'no tree': 200, 'key spend': 200, 'script spend': 200, 'refused': 1500, 'foreign leaf': 1000, 'twins': 30}
VERSIONS = (0xc0, 0xc2, 0xc4, 0xc6, 0xfe, 0x66, 0x7e, 0x80, 0x84, 0x96, 0x98, 0xba, 0xbc, 0xbe)


def script_of(r):
    k = r.random()
    if k < .2:
        return b''
    if k < .7:
        return gen.script(r)[:1000]
    if k < .8:
        return r.randbytes(r.choice((252, 253, 254, 255, 256, 520, 10000)))
    return r.randbytes(r.randrange(80))


class Leaf:
    def __init__(s, name, script):
        s.name, s.script = name, script


class Tree:
    def __init__(s, items, version=None):
        s.items, s.version = items, version


def build(r, n, names, depth=0):
    """a random tree of n scripts"""
    own = r.choice(VERSIONS) if r.random() < .15 else None
    if n == 1:
        return Tree([Leaf(names.pop(), script_of(r))], own)
    if r.random() < .4 or depth > 5:
        items = [Leaf(names.pop(), script_of(r)) for _ in range(n)]
    else:
        items, left = [], n
        while left:
            m = r.randrange(1, left + 1)
            if m == n:
                m = n - 1
            if m == 1 and r.random() < .7:
                items.append(Leaf(names.pop(), script_of(r)))
            else:
                items.append(build(r, m, names, depth + 1))
            left -= m
        if len(items) == 1 and isinstance(items[0], Tree):
            return items[0]
    return Tree(items, own if any(isinstance(x, Leaf) for x in items) else None)


def hashes(t):
    """root, [(leaf, version, path)] of the model"""
    v = t.version if t.version is not None else 0xc4

    def go(items):
        if len(items) == 1:
            x = items[0]
            if isinstance(x, Leaf):
                return SH.leaf_hash(x.script, v), [(x, v, b'')]
            return hashes(x)
        k = len(items) // 2
        (lh, ls), (rh, rs) = go(items[:k]), go(items[k:])
        return SH.branch_hash(lh, rh), [(x, w, p + rh) for x, w, p in ls] + [(x, w, p + lh) for x, w, p in rs]
    return go(t.items)


def real(t, r, pub=None, top=True):
    from bitcointx.core.script import CScript, TaprootScriptTree
    from elementstx.core.script import TaprootElementsScriptTree, CElementsScript
    cls = r.choice((TaprootScriptTree, TaprootElementsScriptTree))
    items = [r.choice((CScript, CElementsScript))(x.script, name=x.name) if isinstance(x, Leaf) else real(x, r, None, False) for x in t.items]
    kw = {'leaf_version': t.version} if t.version is not None else {}
    if pub is not None and r.random() < .5:
        kw['internal_pubkey'] = pub
    x = cls(items if r.random() < .5 else tuple(items), **kw)
    if pub is not None and not kw.get('internal_pubkey'):
        x.set_internal_pubkey(pub)
    expect(isinstance(x, TaprootElementsScriptTree), 'class', 'class of a script tree: %s' % type(x).__name__)
    return x


def tweaked(x, root):
    p = ec.lift_x(x)
    q = ec.add(p, ec.mul(int.from_bytes(SH.tagged(b'TapTweak/elements', x + root), 'big')))
    return q


def proves(out, script, control):
    """the rule of consensus for a script path"""
    if len(control) < 33 or (len(control) - 33) % 32 or len(control) > 33 + 32 * 128:
        return False
    h = SH.leaf_hash(script, control[0] & 0xfe)
    for i in range(33, len(control), 32):
        h = SH.branch_hash(h, control[i:i + 32])
    p = ec.lift_x(control[1:33])
    if p is None:
        return False
    q = tweaked(control[1:33], h)
    return ec.ser_x(q) == out and q[1] & 1 == control[0] & 1


def schnorr(msg, sig, x):
    """BIP340"""
    p = ec.lift_x(x)
    rr, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if len(sig) != 64 or p is None or rr >= ec.P or s >= ec.N:
        return False
    e = int.from_bytes(SH.tagged(b'BIP0340/challenge', sig[:32] + x + msg), 'big') % ec.N
    q = ec.add(ec.mul(s), ec.mul(ec.N - e, p))
    return q is not None and not q[1] & 1 and q[0] == rr


def shape(t):
    return tuple('s' if isinstance(x, Leaf) else shape(x) for x in t.items)


def verify_tree(ctx, t, k, chain):
    from bitcointx.core.key import XOnlyPubKey, CPubKey, tap_tweak_pubkey, check_tap_tweak
    r, rec = ctx.rng, ctx.rec
    key = A.find('CCoinKey').from_secret_bytes(k)
    pt = ec.mul(int.from_bytes(k, 'big'))
    internal = ec.ser_x(pt)
    pub = XOnlyPubKey(internal) if r.random() < .5 else key.xonly_pub
    x = real(t, r, pub)
    root, leaves = hashes(t)
    same(bytes(x.merkle_root), root, 'root', 'root of a script tree', shape=repr(shape(t)))
    q = tweaked(internal, root)
    same((bytes(x.output_pubkey), bool(x.parity)), (ec.ser_x(q), bool(q[1] & 1)), 'output', 'output key and parity of a script tree', shape=repr(shape(t)))
    same(bytes(x.internal_pubkey), internal, 'internal', 'internal key of a script tree')
    got = tap_tweak_pubkey(pub, merkle_root=root)
    same((bytes(got[0]), bool(got[1])), (ec.ser_x(q), bool(q[1] & 1)), 'tweak', 'tweaked key and parity')
    expect(check_tap_tweak(got[0], pub, merkle_root=root, parity=bool(got[1])) is True, 'check', 'the check of a right tweak fails')
    expect(check_tap_tweak(got[0], pub, merkle_root=root, parity=not got[1]) is False, 'check', 'the check of a tweak with the other parity succeeds')
    expect(check_tap_tweak(got[0], pub, merkle_root=bytes([root[0] ^ 1]) + root[1:], parity=bool(got[1])) is False, 'check', 'the check of another tweak succeeds')
    rec.ev(7)
    rec.count('tree')
    out = ec.ser_x(q)
    for leaf, v, path in leaves:
        got = x.get_script_with_control_block(leaf.name)
        expect(got is not None, 'missing', 'a script of a tree is not found', shape=repr(shape(t)), name=leaf.name)
        s, c = got
        same(bytes(s), leaf.script, 'script', 'script of a leaf')
        same(bytes(c), bytes([v | q[1] & 1]) + internal + path, 'control', 'control block of a leaf', shape=repr(shape(t)), name=leaf.name)
        expect(proves(out, bytes(s), bytes(c)), 'proof', 'a control block does not prove its leaf', shape=repr(shape(t)), name=leaf.name)
        same((x.get_script_leaf_version(leaf.name), bytes(x.get_script_path(leaf.name)), bytes(x.get_script(leaf.name))), (v, path, leaf.script), 'leaf', 'version, path and script of a leaf')
        rec.ev(4)
        rec.count('control')
        rec.feat(len(leaves), len(path) // 32, v, q[1] & 1)
        other = r.choice(leaves)[0]
        if other.script != leaf.script:
            expect(not proves(out, other.script, bytes(c)), 'proof-foreign', 'a control block proves another leaf')
            rec.ev()
            rec.count('foreign leaf')
    expect(x.get_script_with_control_block('no such') is None, 'absent', 'a script that is not in the tree is found')
    rec.feat('shape', repr(shape(t))[:120])
    # the output
    spk = b'\x51\x20' + out
    from bitcointx.core.script import CScript
    a = A.find('P2TRCoinAddress').from_output_pubkey(x.output_pubkey) if r.random() < .5 else A.find('P2TRCoinAddress').from_script_tree(x)
    same((str(a), bytes(a.to_scriptPubKey())), (A.encode(chain, 'P2TR', out), spk), 'address', 'address of a script tree')
    rec.ev(2)
    spends(ctx, key, x, root, leaves, out, spk)
    return x, internal


def spends(ctx, key, x, root, leaves, out, spk):
    from bitcointx.core.script import SIGHASH_Type
    from elementstx.core.script import ElementsSignatureHashSchnorr
    r, rec = ctx.rng, ctx.rec
    t = gen.tx(r, lo=1, many=0)
    spent = [gen.txout(r) for _ in t['vin']]
    i = r.randrange(len(t['vin']))
    spent[i]['script'] = spk
    tx = B.lib_tx(t, r.random() < .5)
    outs = [B.lib_out(o) for o in spent]
    gh = r.randbytes(32)
    ht = r.choice((None, 1, 2, 0x81, 0x82))
    kw = {'hashtype': ht and SIGHASH_Type(ht), 'genesis_block_hash': gh}
    want = SH.taproot(t, i, spent, ht, gh)
    h = ElementsSignatureHashSchnorr(tx, i, outs, **kw)
    same(bytes(h), want, 'digest', 'digest of a key-path spend')
    aux = r.choice((None, r.randbytes(32)))
    sig = key.sign_schnorr_tweaked(h, merkle_root=root, aux=aux)
    expect(schnorr(want, sig, out), 'key spend', 'a signature with the tweaked key is not valid for the output key', sig=sig)
    expect(x.output_pubkey.verify_schnorr(h, sig), 'key spend', 'a signature with the tweaked key is refused')
    rec.ev(3)
    rec.count('key spend')
    leaf, v, path = r.choice(leaves)
    if v != 0xc4:
        # signing for other leaf versions is not offered
        return
    got = B.lib_script(bytes(x.get_script(leaf.name)))
    h = got.sighash_schnorr(tx, i, outs, **kw)
    want = SH.taproot(t, i, spent, ht, gh, leaf=SH.leaf_hash(leaf.script))
    same(bytes(h), want, 'digest-leaf', 'digest of a script-path spend')
    sig = key.sign_schnorr_no_tweak(h, aux=aux)
    expect(schnorr(want, sig, ec.ser_x(ec.mul(int.from_bytes(key.secret_bytes, 'big')))), 'script spend', 'a signature of a script spend is not valid for the key')
    rec.ev(2)
    rec.count('script spend')


def no_tree(ctx, k, chain):
    from bitcointx.core.key import CPubKey, tap_tweak_pubkey
    r, rec = ctx.rng, ctx.rec
    key = A.find('C%sKey' % A.CHAIN[chain]['family']).from_secret_bytes(k)
    pt = ec.mul(int.from_bytes(k, 'big'))
    internal = ec.ser_x(pt)
    q = tweaked(internal, b'')
    got = tap_tweak_pubkey(key.xonly_pub)
    same((bytes(got[0]), bool(got[1])), (ec.ser_x(q), bool(q[1] & 1)), 'tweak-plain', 'tweaked key without scripts')
    same(str(A.find('P2TRCoinAddress').from_pubkey(key.pub)), A.encode(chain, 'P2TR', ec.ser_x(q)), 'address-plain', 'taproot address of a key')
    h = r.randbytes(32)
    sig = key.sign_schnorr_tweaked(h)
    expect(schnorr(h, sig, ec.ser_x(q)), 'sign-plain', 'a signature with the key tweaked without scripts is not valid for the output key')
    rec.ev(3)
    rec.count('no tree')


def misuse(ctx, x):
    from bitcointx.core.script import TaprootScriptTree, CScript
    s = CScript(b'\x51', name='a')
    for how, f in (('empty', lambda: TaprootScriptTree([])), ('single tree', lambda: TaprootScriptTree([x])), ('odd version', lambda: TaprootScriptTree([s], leaf_version=0xc5)),
                   ('version', lambda: TaprootScriptTree([s], leaf_version=ctx.rng.choice((256, -2, 1000)))), ('unconventional', lambda: TaprootScriptTree([s], leaf_version=0x50)),
                   ('no key', lambda: TaprootScriptTree([s]).get_script_with_control_block('a'))):
        try:
            f()
        except ValueError:
            pass
        else:
            expect(False, 'misuse', 'misuse of a tree (%s) is accepted' % how)
        ctx.rec.ev()
        ctx.rec.count('refused')


def episode(ctx):
    from bitcointx import ChainParams
    r = ctx.rng
    chain = r.choice(CHAINS)
    with ChainParams(chain):
        for _ in range(3):
            k = ct.scalar(r)
            n = r.choice((1, 2, 3, 4, 5, 8, r.randrange(1, 21)))
            t = build(r, n, ['n%d' % i for i in range(n)])
            x, internal = verify_tree(ctx, t, k, chain)
        no_tree(ctx, k, chain)
        misuse(ctx, x)
    ctx.rec.sample(shape=repr(shape(t)), internal=internal, output=bytes(x.output_pubkey))


def sizes(ctx):
    from bitcointx import ChainParams
    r = ctx.rng
    with ChainParams('elements'):
        for n in range(1, 34):
            verify_tree(ctx, Tree([Leaf('n%d' % i, script_of(r)) for i in range(n)]), ct.scalar(r), 'elements')
        for d in (1, 2, 3, 10, 40):
            t = Tree([Leaf('x', b'\x51')])
            for i in range(d):
                a = [Leaf('n%d' % i, script_of(r)), t if i else t.items[0]]
                t = Tree(a if r.random() < .5 else a[::-1])
            verify_tree(ctx, t, ct.scalar(r), 'elements')
        # equal hashes on both sides
        verify_tree(ctx, Tree([Leaf('a', b'\x51'), Leaf('b', b'\x51')]), ct.scalar(r), 'elements')
    ctx.rec.count('complete')


def twin(r, t):
    """a tree that differs in one thing"""
    t = Tree([twin(r, x) if isinstance(x, Tree) and r.random() < .5 else x for x in t.items], t.version)
    k = r.randrange(5)
    if k == 0 and any(isinstance(x, Leaf) for x in t.items):
        t.version = r.choice((None,) + VERSIONS[:4])
    elif k == 1:
        t.items.reverse()
    elif k == 2:
        i = r.randrange(len(t.items))
        if isinstance(t.items[i], Leaf):
            t.items[i] = Leaf(t.items[i].name, script_of(r))
    elif k == 3 and len(t.items) > 1:
        i, j = r.sample(range(len(t.items)), 2)
        a, b = t.items[i], t.items[j]
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            t.items[i], t.items[j] = Leaf(a.name, b.script), Leaf(b.name, a.script)
    return t


def d_twins(ctx):
    """trees that differ in one thing each, with the same few keys"""
    from bitcointx import ChainParams
    r = ctx.rng
    for _ in range(6):
        ks = [ct.scalar(r) for _ in range(2)]
        n = r.choice((1, 2, 3, 5))
        t = build(r, n, ['n%d' % i for i in range(n)])
        for _ in range(6):
            chain = r.choice(CHAINS)
            with ChainParams(chain):
                verify_tree(ctx, t, r.choice(ks), chain)
                ctx.rec.count('twins')
            t = twin(r, t)


DIRECTED = [d_twins, sizes]
