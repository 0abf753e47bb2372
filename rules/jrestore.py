"""Restoring a tree from chunks (J19): what is taken in, when it is written, and what finishing requires."""
import fin
from lib import *
from jdb import plain
from proofs import INT_SEP, PLACEHOLDER

R = "jmt::restore::JellyfishMerkleRestore::<H>::"
T_ADD = "jmt::<restore::JellyfishMerkleRestore<H> as restore::StateSnapshotReceiver>::add_chunk"
T_FIN = "jmt::<restore::JellyfishMerkleRestore<H> as restore::StateSnapshotReceiver>::finish"
FIXED = ("store", "version", "expected_root_hash")
ADD, VERIFY, FREEZE, WRITE = "add_one", "verify", "freeze", "write_node_batch"


def last(n):
    return n.split("::")[-1]


def ours(f, *names):
    return last(f.qual) in names and "JellyfishMerkleRestore" in f.qual


def hashing(f):
    """the hash of a node is taken as a whole"""
    return last(f.qual) == "hash" and ("node_type::" in f.qual) and not f.impl_trait


def range_proof(f):
    return True if "SparseMerkleRangeProof" in f.qual and last(f.qual) == "verify" or ours(f, SIBLING) else None


def check_restore(ctx):
    ctx.rule("start", "a restoration starts with the store, version and expected root it is given, nothing taken in, and the rightmost leaf already stored, if any, as the last one")
    ctx.rule("fixed", "store, version and expected root never change while restoring")
    ctx.rule("intake", "every entry of a chunk, in order: refused unless its key is greater than the last one's; taken in with its own key, the hash of its value, and its value at the restored version")
    ctx.rule("verified", "the nodes and values taken in are written only once the range proof has verified after the last of them, and then forgotten; a chunk that fails writes nothing")
    ctx.rule("proof", "verifying is verifying the range proof for the last leaf taken in against the expected root")
    ctx.rule("left", "the hash of a stretch of the frontier's children is the tree's hash of it")
    ctx.rule("finish", "finishing writes only when the root node to be written has the expected hash, and succeeds only when it has been written")
    fixed(ctx)
    start(ctx)
    intake(ctx)
    proof(ctx)
    left(ctx)
    finish(ctx)


# ---------------------------------------------------------------- fields that stay
def fixed(ctx):
    """no function of the restoration assigns to, or lends out for change, one of the fields"""
    n = 0
    for f in ctx.db("jmt").by_path.values():
        if f.crate != "jmt" or not f.path.lstrip("<").startswith("restore::") or not getattr(f, "blocks", None):
            continue
        n += 1
        ctx.fns.add(f.qual)
        bad = None
        for b in f.blocks:
            for st in b["s"]:
                if st.get("k") == "as":
                    bad = bad or touched(f, st["pl"])
                    rv = st["rv"]
                    if rv.get("k") in ("ref", "rawptr", "addr") and rv.get("m") and "pl" in rv:
                        bad = bad or touched(f, rv["pl"])
            t = b["t"]
            if t.get("k") == "call" and t.get("d"):
                bad = bad or touched(f, t["d"])
        ctx.ob("fixed", f.qual, bad is None, "changes %s" % bad, bad)
    ctx.floor("fixed", R, n, 8, "functions of the restoration")


def touched(f, pl):
    if not isinstance(pl, dict) or not pl.get("p"):
        return None
    ty = f.locals[pl["l"]]["ty"]
    while isinstance(ty, dict) and ty.get("k") in ("ref", "ptr"):
        ty = ty["t"]
    if not (isinstance(ty, dict) and ty.get("k") == "adt" and str(ty.get("p", "")).endswith("JellyfishMerkleRestore")):
        return None
    for e in pl["p"]:
        if e[0] == "f":
            return e[2] if len(e) > 2 and e[2] in FIXED else None
    return None


def root_of(t):
    """the restoration a field is read from: opaque steps leave the fixed fields alone"""
    while True:
        if t.op == "eff" and last(t.a[0]) in (ADD, FREEZE) and t.a[1] == 0:
            t = t.a[2]
        elif t.op == "upd":
            s = t.a[1]
            if isinstance(s, tuple) and s[0] == "f" and s[1] in FIXED:
                return t
            t = t.a[0]
        else:
            return t


def is_fixed(t, name, ok):
    """t is the field `name` of the restoration; ok(root) tells whether it is the right one"""
    if t.op != "field" or t.a[1] != name:
        return False
    return ok(root_of(t.a[0]))


# ---------------------------------------------------------------- constructors
def start(ctx):
    for q, over in (("new", False), ("new_overwrite", True)):
        s = ctx.summ(R + q, lambda f: True if ours(f, "recover_partial_nodes") else None, "j19", fine=2)
        a = plain(s)
        n = 0
        for o in s.outs:
            if o.kind == "panic":
                continue
            v = ok_of(o)
            if v is None:
                continue
            n += 1
            ok = v.op == "adt" and proj(v, "store") is a[0] and proj(v, "version") is a[1] and proj(v, "expected_root_hash") is a[2]
            ctx.ob("start", s.fn.qual, ok, "starts with another store, version or root", "args")
            if not ok:
                continue
            ctx.ob("start", s.fn.qual, proj(v, "num_keys_received") is INT0, "starts with keys already received", "count")
            fr = proj(v, "frozen_nodes")
            ctx.ob("start", s.fn.qual, all(empty(proj(fr, x)) for x in ("nodes", "values")), "starts with nodes to be written", "frozen")
            p = proj(v, "previous_leaf")
            rl = [e.res for e in o.events if e.kind == "call" and last(e.name) == "get_rightmost_leaf"]
            if over or not rl:
                ctx.ob("start", s.fn.qual, over and p is NONE, "an overwriting restoration starts after a leaf, or a resumed one does not look for the last leaf", "prev")
                continue
            got = payload(rl[0], "Ok")
            some = o.facts.truth(mk_isv(got, "Some"))
            if some is True:
                leaf = mk("field", payload(got), "1")
                ok = p is Some(leaf)
            else:
                ok = some is False and (p is NONE or p is got)
            ctx.ob("start", s.fn.qual, ok, "resumes after %s" % show(p)[:100], "prev")
        ctx.floor("start", s.fn.qual, n, 1 if over else 2, "outcomes")


def empty(t):
    return t is EMPTY or t.op == "empty" or t is interp.EMPTY_BTREE or t.op == "call" and "default" in str(t.a[0])


def ok_of(o):
    if o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == "Ok":
        return o.val.a[3][0]
    return None


# ---------------------------------------------------------------- chunks
def intake(ctx):
    q = T_ADD
    s = ctx.summ(q, lambda f: True if ours(f, ADD, VERIFY, FREEZE) else None, "j19", fine=2)
    selfv, chunk, pf = plain(s)[:3]
    loops = [L for L in s.I.loops.values() if any(has_call(x, ADD) for v, (i, st) in L.vars.items() for x, f in st)]
    ctx.floor("intake", q, len(loops), 1, "loops taking entries in")
    for L in loops:
        sv = [v for v, (i, st) in L.vars.items() if v.op == "lv" and any(has_call(x, ADD) for x, f in st)]
        if len(sv) != 1 or L.vars[sv[0]][0] is not selfv:
            ctx.ob("intake", q, False, "taking in does not start from the restoration as it is", "init")
            continue
        cur = sv[0]
        for j, b in enumerate(L.backs):
            t = L.vars[cur][1][j][0]
            p = step(ctx, cur, t, b.facts, chunk, L)
            ctx.ob("intake", q, p is None, p, "step:%s" % p)
        ctx.floor("intake", q, len(L.backs), 1, "ways to take an entry in")
    nok = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("intake", q, False, "a chunk can panic", "panic")
            continue
        ws = [e for e in o.events if e.kind == "call" and last(e.name) == WRITE]
        vs = [e for e in o.events if e.kind == "call" and last(e.name) == VERIFY and "JellyfishMerkleRestore" in e.name]
        done = o.facts
        for e in ws:
            st, batch = e.res.a[1], e.res.a[2]
            v = [x.res for x in vs if e.facts.truth(mk_isv(x.res, "Ok")) is True]
            ok = len(v) == 1 and v[0].a[2] is pf
            ctx.ob("verified", q, ok, "writes before the range proof has verified", "order")
            if not ok:
                continue
            now = v[0].a[1]
            ok = any(now.op == "lv" and now in L.vars and exhausted(s.I, e.facts, L.id, chunk) for L in loops)
            ctx.ob("verified", q, ok, "verifies before every entry of the chunk has been taken in", "all")
            ctx.ob("verified", q, entails(e.facts, mk_le(INT1, mk("call", "len", chunk))), "accepts an empty chunk", "empty")
            ok = is_fixed(st, "store", lambda r: r is now or r is selfv) and (batch is mk("field", now, "frozen_nodes"))
            ctx.ob("verified", q, ok, "writes %s to %s" % (show(batch)[:80], show(st)[:60]), "what")
        if is_err(o) is False or not is_err(o):
            nok += 1
            ok = len(ws) == 1 and (done.truth(mk_isv(ws[0].res, "Ok")) is True or o.val is ws[0].res)
            ctx.ob("verified", q, ok, "succeeds without having written", "ok")
            if ok and o.val is not ws[0].res:
                fr = proj(final(o, selfv), "frozen_nodes")
                ctx.ob("verified", q, all(empty(proj(fr, x)) for x in ("nodes", "values")), "what has been written is kept to be written again", "forget")
        else:
            ctx.ob("verified", q, len(ws) <= 1 and all(o.facts.truth(mk_isv(e.res, "Err")) is not False for e in ws), "fails after it has written", "err")
    ctx.floor("verified", q, nok, 1, "accepted chunks")


def has_call(t, name):
    return any(x.op == "eff" and last(str(x.a[0])) == name and x.a[1] == 0 for x in subterms(t))


def step(ctx, cur, t, f, chunk, L):
    adds = {x for x in subterms(t) if x.op == "eff" and last(str(x.a[0])) == ADD and x.a[1] == 0}
    if len(adds) != 1:
        return "an entry is taken in %d times" % len(adds)
    e, = adds
    before, k, vh = e.a[2], e.a[3], e.a[4]
    if k.op != "field" or k.a[1] != "0" or k.a[0].op not in ("elem", "idx"):
        return "takes in the key %s" % show(k)[:80]
    el = k.a[0]
    at = mk("ind", L.id, INT0)
    if el is not mk("elem", chunk, L.id) and el is not mk("idx", chunk, at) and not (el.op == "elem" and el.a[0] is chunk):
        return "takes in the key %s" % show(k)[:80]
    val = mk("field", el, "1")
    want_vh = mk("adt", vh.a[0], vh.a[1], vh.a[2], (mk("H", "H", val),)) if vh.op == "adt" else None
    if vh is not want_vh or not vh.a[0].endswith("ValueHash"):
        return "takes a key in with the value hash %s" % show(vh)[:80]
    if root_of(before) is not cur:
        return "takes in from %s" % show(before)[:80]
    if proj(before, "num_keys_received") is not mk("field", cur, "num_keys_received"):
        return "counts the key before it is taken in"
    if proj(before, "partial_nodes") is not mk("field", cur, "partial_nodes"):
        return "changes the frontier by itself"
    if proj(before, "previous_leaf") is not mk("field", cur, "previous_leaf") and not leaf_of(proj(before, "previous_leaf"), k, vh):
        return "the last leaf becomes %s" % show(proj(before, "previous_leaf"))[:80]
    if not leaf_of(proj(t, "previous_leaf"), k, vh) and not (
            proj(t, "previous_leaf") is mk("field", e, "previous_leaf") and leaf_of(proj(before, "previous_leaf"), k, vh)):
        return "the last leaf becomes %s" % show(proj(t, "previous_leaf"))[:100]
    n = proj(t, "num_keys_received")
    if n is not add(mk("field", e, "num_keys_received"), INT1) and n is not add(mk("field", cur, "num_keys_received"), INT1):
        return "the number of keys becomes %s" % show(n)[:60]
    if proj(t, "partial_nodes") is not mk("field", e, "partial_nodes"):
        return "changes the frontier by itself"
    # the value, before or after
    ver = lambda x: is_fixed(x, "version", lambda r: r is cur)
    a = taken(proj(before, "frozen_nodes"), mk("field", cur, "frozen_nodes"), ver, k, val)
    b = taken(proj(t, "frozen_nodes"), mk("field", e, "frozen_nodes"), ver, k, val)
    if a is None or b is None or a + b != 1:
        return "the value is recorded as %s" % show(proj(t, "frozen_nodes"))[:200]
    # ascending
    prev = mk("field", cur, "previous_leaf")
    if f.truth(mk_isv(prev, "Some")) is not False:
        pk = mk("field", payload(prev), "key_hash")
        if not entails(f, mk_lt(pk, k)):
            return "a key need not be greater than the last one"
    return None


def leaf_of(p, k, vh):
    if p.op != "adt" or p.a[1] != "Some":
        return False
    x = p.a[3][0]
    return x.op == "adt" and x.a[0].endswith("LeafNode") and proj(x, "key_hash") is k and proj(x, "value_hash") is vh


def taken(now, was, ver, k, val):
    """1: the value was added; 0: nothing was; None: something else"""
    if now is was:
        return 0
    if proj(now, "nodes") is not mk("field", was, "nodes"):
        return None
    v = proj(now, "values")
    w = mk("field", was, "values")
    if v is w:
        return 0
    if v.op == "ins" and v.a[0] is w and v.a[1].op == "tuple" and len(v.a[1].a[0]) == 2 and ver(v.a[1].a[0][0]) and v.a[1].a[0][1] is k and v.a[2] is Some(val):
        return 1
    return None


# ---------------------------------------------------------------- the range proof
def proof(ctx):
    s = ctx.summ(R + VERIFY, range_proof, "j19", fine=2)
    selfv, pf = plain(s)[:2]
    prev = payload(mk("field", selfv, "previous_leaf"))
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            continue
        vs = [e.res for e in o.events if e.kind == "call" and last(e.name) == "verify" and "SparseMerkleRangeProof" in e.name]
        if is_err(o) and not any(o.val is v for v in vs):
            continue
        n += 1
        ok = len(vs) == 1 and (o.val is vs[0] or o.kind == "ret" and o.facts.truth(mk_isv(vs[0], "Ok")) is True)
        ctx.ob("proof", s.fn.qual, ok, "accepts without the range proof", "call")
        if not ok:
            continue
        c = vs[0]
        leaf = c.a[3]
        ok = c.a[1] is pf and c.a[2] is mk("field", selfv, "expected_root_hash")
        ctx.ob("proof", s.fn.qual, ok, "verifies %s against %s" % (show(c.a[1])[:60], show(c.a[2])[:60]), "root")
        ok = proj(leaf, "key_hash") is mk("field", prev, "key_hash") and proj(leaf, "value_hash") is mk("field", prev, "value_hash")
        ctx.ob("proof", s.fn.qual, ok, "verifies for the leaf %s" % show(leaf)[:120], "leaf")
    ctx.floor("proof", s.fn.qual, n, 1, "verified outcomes")


# ---------------------------------------------------------------- hashes of the left
SIBLING = "compute_left_sibling"
IMPL = "compute_left_sibling_impl"
LEAF_HASH = "node_type::LeafNode::hash"


def left(ctx):
    stretches(ctx)
    halves(ctx)
    siblings(ctx)


def stretches(ctx):
    """one child: its hash and whether it is a leaf (nothing counts as one); more: the halves, combined as the tree combines them"""
    q = R + IMPL
    s = ctx.summ(q, lambda f: True if ours(f, IMPL) or hashing(f) else None, "j19", fine=2)
    ch = plain(s)[0]
    ln = mk("call", "len", ch)
    one = mk("idx", ch, INT0)
    half = mk("bin", "Shr", ln, INT1)
    calls = called(s, IMPL)
    A = [c for c in calls if c.a[1] is mk("slice", ch, INT0, half)]
    B = [c for c in calls if c.a[1] is mk("slice", ch, half, ln)]
    ok = len(A) == 1 and len(B) == 1 and len(calls) == 2
    ctx.ob("left", q, ok, "does not divide a stretch into its two halves", "halves")
    if not ok:
        return
    a, al, b, bl = mk("field", A[0], "0"), mk("field", A[0], "1"), mk("field", B[0], "0"), mk("field", B[0], "1")
    single = payload(one)
    for k in ("None", "Leaf", "Internal"):
        doms = [(one, "None")] if k == "None" else [(one, "Some"), (single, k)]
        if k == "Internal":
            doms.append((payload(single, "Internal", "hash"), "Some"))
        n = 0
        for o in s.outs:
            f = o.facts
            if f.truth(mk_eq(ln, INT1)) is False or f.truth(mk_le(ln, INT1)) is False or f.truth(mk_le(INT1, ln)) is False or any(f.truth(mk_isv(x, v)) is False for x, v in doms):
                continue
            if o.kind == "panic":
                ok = f.truth(mk_eq(ln, INT1)) is None
                ctx.ob("left", q, ok, "fails for a single child (%s)" % k, k)
                continue
            n += 1
            r0, leaf = pair(o)
            if k == "None":
                ok = r0 is PLACEHOLDER and leaf is True
            elif k == "Leaf":
                ok = r0.op == "call" and r0.a[0] == LEAF_HASH and r0.a[1] is payload(single, "Leaf", "node") and leaf is True
            else:
                ok = r0 is payload(payload(single, "Internal", "hash")) and leaf is False
            ctx.ob("left", q, ok, "a single child (%s) gets the hash %s (a leaf: %s)" % (k, show(r0)[:100], leaf), k)
        ctx.floor("left", q, n, 1, "outcomes for a single child (%s)" % k)
    for x in ("gone", "leaf", "node"):
        for y in ("gone", "leaf", "node"):
            lits = [(mk_le(ln, INT1), False), (mk_eq(a, PLACEHOLDER), x == "gone"), (al, x != "node"), (mk_eq(b, PLACEHOLDER), y == "gone"), (bl, y != "node")]
            n = 0
            for o in s.outs:
                if o.kind != "ret" or o.facts.truth(mk_eq(ln, INT1)) is True or any(o.facts.truth(g) is (not v) for g, v in lits):
                    continue
                n += 1
                r0, leaf = pair(o)
                if leaf is al:
                    leaf = x != "node"
                if leaf is bl:
                    leaf = y != "node"
                if x == "gone" and y != "node":
                    ok = leaf is True and (r0 is b or y == "gone" and r0 in (a, PLACEHOLDER))
                elif y == "gone" and x != "node":
                    ok = leaf is True and r0 is a
                else:
                    ok = leaf is False and r0 is mk("H", "sha256", INT_SEP, a, b)
                ctx.ob("left", q, ok, "halves that are %s and %s get the hash %s (a leaf: %s)" % (x, y, show(r0)[:100], leaf), (x, y))
            ctx.floor("left", q, n, 1, "outcomes for halves that are %s and %s" % (x, y))


def called(s, name):
    out = []
    for o in s.outs:
        for e in o.events:
            if e.kind == "call" and last(e.name) == name and e.res not in out:
                out.append(e.res)
    return out


def pair(o):
    """the hash, and whether it is a leaf's: True or False, or the term when it is not known"""
    r = o.val
    h, l = r.a[0] if r.op == "tuple" else (proj(r, "0"), proj(r, "1"))
    if l in (INT0, INT1):
        return h, l is INT1
    t = o.facts.truth(l)
    return h, l if t is None else t


def halves(ctx):
    """for every child index and height, where there is a half on the left: its bounds, among the node's own children"""
    q = R + SIBLING
    s = ctx.summ(q, lambda f: True if ours(f, IMPL) else None, "j19", fine=2)
    node, n, h = plain(s)[:3]
    ch = mk("field", node, "children")
    k = 0
    have = set()
    for o in s.outs:
        if o.kind != "ret":
            continue
        k += 1
        r = o.val
        ok = r.op == "field" and r.a[1] == "0" and r.a[0].op == "call" and last(r.a[0].a[0]) == IMPL and r.a[0].a[1].op == "slice" and r.a[0].a[1].a[0] is ch
        ctx.ob("left", q, ok, "the hash on the left is %s" % show(r)[:100], "shape")
        if not ok:
            continue
        _, lo, hi = r.a[0].a[1].a
        bad = None
        try:
            F = fin.Fin({n: "n", mk("field", n, "0"): "n", h: "h"}, lambda F, t: "16" if t is mk("call", "len", ch) else None, width=8)
            at = eval("lambda n, h: (%s, %s, %s)" % (F.facts(o.facts), F.e(lo), F.e(hi)), dict(fin.ENV))
            for i in range(16):
                for g in range(4):
                    if i >> g & 1:
                        there, x, y = at(i, g)
                        w = ((i >> g) - 1) << g
                        if there:
                            have.add((i, g))
                        if there and (x, y) != (w, w + (1 << g)):
                            bad = bad or "to the left of child %d at height %d are children %s to %s" % (i, g, x, y)
        except fin.Unknown as x:
            bad = "bounds %s" % x
        ctx.ob("left", q, bad is None, bad, "bounds")
    ctx.floor("left", q, k, 1, "outcomes")
    lack = next(((i, g) for i in range(16) for g in range(4) if i >> g & 1 and (i, g) not in have), None)
    ctx.ob("left", q, lack is None, "gives nothing for what is to the left of child %s at height %s" % (lack or (0, 0)), "all")


def siblings(ctx):
    """the siblings on the left: for every set bit of the last key, from the root, the hash of what the frontier has on the left there; nothing below it.
    Only nothings are left out at the bottom."""
    s = ctx.summ(R + VERIFY, range_proof, "j19", fine=2)
    q = s.fn.qual
    selfv = plain(s)[0]
    prev = payload(mk("field", selfv, "previous_leaf"))
    nodes = mk("field", selfv, "partial_nodes")
    key = mk("field", prev, "key_hash")
    n = 0
    seen = set()
    for o in s.outs:
        for e in o.events:
            if e.kind != "call" or last(e.name) != "verify" or e.res in seen:
                continue
            seen.add(e.res)
            n += 1
            why = from_frontier(ctx, s, e.res.a[4], key, nodes)
            ctx.ob("left", q, why is None, why, "siblings:%s" % why)
    ctx.floor("left", q, n, 1, "verified sets of siblings")


def from_frontier(ctx, s, t, key, nodes):
    flip = 0
    while True:
        if t.op in ("reversed", "rev"):
            flip ^= 1
            t = t.a[0]
            continue
        L = next((L for L in s.I.loops.values() if t in L.vars), None)
        if L is None:
            break
        i, st = L.vars[t]
        for x, f in st:
            if x is t:
                continue
            if x is not mk("popped", t):
                return "the siblings become %s" % show(x)[:100]
            at = mk("idx", t, sub(mk("call", "len", t), INT1))
            if not any(PLACEHOLDER in p and any(is_last(y, t) for y in p) for p in eq_facts(f)):
                return "a sibling that is something is left out"
        t = i
    if t.op != "coll":
        return "the siblings are %s" % show(t)[:100]
    if not flip:
        return "the siblings are given from the root"
    cases, n = [], {}
    inds = {x for p in t.a[2] for y in p.a[0] for x in subterms(y) if x.op == "ind"}
    inds = {x for x in inds if not str(x.a[0]).startswith("#")}
    if len(inds) != 1:
        return "the siblings are %s" % show(t)[:100]
    var, = inds
    if not any(x.op == "adt" and x.a[0].endswith("Range") and x.a[3][0] is INT0 and x.a[3][1] is Int(256) for x in subterms(t.a[1])):
        return "the siblings are for %s" % show(t.a[1])[:100]
    kb = (mk("field", key, "0"), key)

    def special(F, x):
        if x.op == "idx" and x.a[0] in kb:
            return "_at(%s,i,b)" % F.e(x.a[1])
        if x.op == "call" and x.a[0] == "len" and x.a[1] in kb:
            return "32"
        if x.op == "more" and str(x.a[1]).startswith("#") and x.a[0].op == "adt" and x.a[0].a[0].endswith("Range"):
            return "(%s+%d<%s)" % (F.e(x.a[0].a[3][0]), int(str(x.a[1])[1:]), F.e(x.a[0].a[3][1]))
        return None

    def at(x, i, b):
        if x != i >> 3:
            raise Wrong(i)
        return b
    F = fin.Fin({var: "i", mk("call", "len", nodes): "n"}, special, width=64)
    try:
        for p in t.a[2]:
            g, v = p.a[0]
            g = " and ".join([F.b(x) if v_ else "(not %s)" % F.b(x) for x, v_ in guards(g)]) or "True"
            if v is PLACEHOLDER:
                v = "(None,)"
            elif v.op == "call" and last(v.a[0]) == SIBLING and v.a[1].op == "idx" and v.a[1].a[0] is nodes:
                v = "(%s,%s,%s)" % (F.e(v.a[1].a[1]), F.e(v.a[2]), F.e(v.a[3]))
            else:
                return "a sibling is %s" % show(v)[:100]
            cases.append(eval("lambda i,b,n: %s if %s else None" % (v, g), dict(fin.ENV, _at=at)))
    except fin.Unknown as x:
        return "siblings depend on %s" % x
    try:
        for i in range(256):
            for m in [1, 2, i >> 2, (i >> 2) + 1, 63, 64]:
                if m < 1:
                    continue
                for b in range(256):
                    got = [y for y in (c(i, b, m) for c in cases) if y is not None]
                    nib = b >> 4 if (i >> 2) % 2 == 0 else b & 15
                    if not b >> (7 - (i & 7)) & 1:
                        want = []
                    elif i >= 4 * m:
                        want = [(None,)]
                    else:
                        want = [(i >> 2, nib, 3 - (i & 3))]
                    if got != want:
                        return "at bit %d of a key with the byte %d there, under %d nodes, the siblings are %s" % (i, b, m, got)
    except Wrong as x:
        return "the sibling at bit %s depends on another byte of the key" % x
    return None


class Wrong(Exception):
    pass


def guards(c):
    return [(p.a[0][0], p.a[0][1] is INT1) for p in c.a[0]]


def is_last(x, t):
    return x.op == "idx" and x.a[0] is t and x.a[1] is sub(mk("call", "len", t), INT1)


# ---------------------------------------------------------------- finishing
def finish(ctx):
    for q in (T_FIN, T_FIN + "_box"):
        s = ctx.summ(q, lambda f: True if ours(f, FREEZE) or hashing(f) else None, "j19", fine=2)
        selfv = plain(s)[0]
        n = 0
        for o in s.outs:
            if o.kind == "panic":
                continue
            ws = [e for e in o.events if e.kind == "call" and last(e.name) == WRITE]
            for e in ws:
                p = rooted(e, selfv)
                ctx.ob("finish", q, p is None, p, "write:%s" % p)
            if is_err(o) and not any(o.val is e.res for e in ws):
                ok = all(o.facts.truth(mk_isv(e.res, "Err")) is True for e in ws)
                ctx.ob("finish", q, ok, "fails after it has written", "err")
                continue
            n += 1
            ok = len(ws) == 1 and (o.val is ws[0].res or o.facts.truth(mk_isv(ws[0].res, "Ok")) is True)
            ctx.ob("finish", q, ok, "succeeds without having written", "ok")
        ctx.floor("finish", q, n, 2, "successful outcomes")


def rooted(e, selfv):
    st, batch, f = e.res.a[1], e.res.a[2], e.facts
    mine = lambda r: r is selfv
    if not is_fixed(st, "store", mine):
        return "writes to %s" % show(st)[:80]
    nodes = proj(batch, "nodes")
    if nodes.op == "ins":
        key, node = nodes.a[1], nodes.a[2]
        if not is_root_key(key, mine):
            return "writes the root at %s" % show(key)[:100]
    else:
        gets = [x for x in f.dom if x.op == "call" and x.a[0] == "get" and x.a[1] is nodes and is_root_key(x.a[2], mine) and f.truth(mk_isv(x, "Some")) is True]
        if len(gets) != 1:
            return "writes without a root node"
        node = payload(gets[0])
    want = lambda x: is_fixed(x.a[0], "expected_root_hash", mine) if x.op == "field" and x.a[1] == "0" else False
    for x, y in eq_facts(f):
        for h, w in ((x, y), (y, x)):
            if want(w) and is_hash_of(h, node, f):
                return None
    return "writes without comparing the root node's hash with the expected one"


def is_root_key(k, mine):
    p = proj(k, "nibble_path")
    return is_fixed(proj(k, "version"), "version", mine) and proj(p, "num_nibbles") is INT0


def is_hash_of(h, node, f):
    if h.op != "call" or last(h.a[0]) != "hash":
        return False
    x = h.a[1]
    if x is node:
        return True
    if node.op == "adt" and node.a[1] in ("Leaf", "Internal"):
        return x is node.a[3][0]
    for v in ("Leaf", "Internal"):
        if f.truth(mk_isv(node, v)) is True and x is payload(node, v):
            return True
    return False
