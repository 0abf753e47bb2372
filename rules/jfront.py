"""The frontier of a restoration (J24): what leaves it is what it holds, and it grows where the new key goes."""
import fin
import lib
from lib import *
from jdb import plain
from jrestore import ok_of, R, T_FIN, WRITE, last, hashing, ours, called, is_fixed

OPAQUE = {"gen_child_node_key", "gen_parent_node_key", "common_prefix_nibbles_len", "get_nibble", "visited_nibbles", "leaf_count", "into_internal_node", "into_child",
          "freeze", "freeze_previous_leaf", "freeze_internal_nodes", "insert_at_leaf", "new_migration"}
CHILD = "node_type::NodeKey::gen_child_node_key"
CONV = "restore::InternalInfo::into_internal_node"


def opaque(*but):
    names = OPAQUE - set(but)

    def go(f):
        if last(f.qual) in names or hashing(f):
            return True
        if last(f.qual) == "insert" and "Children" in f.qual or last(f.qual) in ("from_iter", "last") and "NibblePath" in f.qual:
            return True
        return None
    return go


def check_frontier(ctx):
    ctx.rule("keys", "a child's key is the node's own path and the nibble, at the version given; a parent's is the path without its last nibble, at the same version")
    ctx.rule("child", "a child of the frontier becomes a child with its own hash, kind and number of leaves, and the restored version")
    ctx.rule("convert", "a frontier node becomes the internal node, at its own key, of exactly its children, each at its own index")
    ctx.rule("leaf", "freezing puts the last leaf, the rightmost child of the lowest frontier node, aside to be written at its own key")
    ctx.rule("internal", "freezing takes the frontier nodes beyond the given number, lowest first; each is put aside to be written at its own key, and its hash is recorded in its parent")
    ctx.rule("grow", "a key goes down the frontier by its own nibbles; where nothing is, all below is frozen and its leaf put there; where a leaf is, the leaf is split")
    ctx.rule("split", "splitting a leaf makes a frontier node for every nibble the two keys share and one where they part, each under the key's own path; the old leaf is frozen and the new one put beside it")
    ctx.rule("end", "finishing writes all that is put aside once everything is frozen; a tree of one leaf is that leaf, as the root")
    ctx.rule("begin", "a restoration begins with an empty root, or, after a crash, with what is recovered for the rightmost leaf stored")
    ctx.rule("recover", "the frontier recovered is the ancestors of the rightmost leaf that are not stored, up to the root; each has as children what is stored left of the level below, and the level below")
    keys(ctx)
    child(ctx)
    convert(ctx)
    leaf(ctx)
    internal(ctx)
    frozen(ctx)
    grow(ctx)
    split(ctx)
    begin(ctx)
    recover(ctx)
    end(ctx)


def rd(v, *steps):
    for s in steps:
        v = lib._PI.proj(v, ("f", s) if isinstance(s, str) else s)
    return v


def diff(t, base):
    """the places where t differs from base: {path: value}"""
    if t is base:
        return {}
    if isinstance(t, T) and t.op == "upd":
        d = diff(t.a[0], base)
        if d is None:
            return None
        s, v = t.a[1], t.a[2]
        for p in [p for p in d if p[0] == s]:
            del d[p]
        sub_ = diff(v, rd(base, s))
        if sub_ is None:
            d[(s,)] = v
        else:
            for p, x in sub_.items():
                d[(s,) + p] = x
        return d
    return None


def idx(v, i):
    return rd(v, ("i", i))


# ---------------------------------------------------------------- keys
def edits(f):
    return True if "NibblePath" in f.qual and last(f.qual) in ("push", "pop") else None


def keys(ctx):
    path = "types::nibble::nibble_path::NibblePath::"
    for name in ("gen_child_node_key", "gen_parent_node_key"):
        s = ctx.summ("jmt::node_type::NodeKey::" + name, edits, "j24", fine=2)
        a = plain(s)
        was = mk("field", a[0], "nibble_path")
        child_ = name == "gen_child_node_key"
        n = 0
        for o in s.outs:
            popped = o.facts.truth(mk_isv(mk("call", path + "pop", was), "None"))
            if o.kind == "panic":
                ctx.ob("keys", s.fn.qual, not child_ and (popped is True or entails(o.facts, mk_le(rd(was, "num_nibbles"), INT0))), "fails", "panic")
                continue
            n += 1
            v = proj(o.val, "version")
            ctx.ob("keys", s.fn.qual, v is (a[1] if child_ else mk("field", a[0], "version")), "is at the version %s" % show(v)[:80], "version")
            p = proj(o.val, "nibble_path")
            ok = p is (mk("eff", path + "push", 0, was, a[2]) if child_ else mk("eff", path + "pop", 0, was))
            ctx.ob("keys", s.fn.qual, ok, "is at the path %s" % show(p)[:120], "path")
        ctx.floor("keys", s.fn.qual, n, 1, "outcomes")


# ---------------------------------------------------------------- conversions
def child(ctx):
    s = ctx.summ("jmt::restore::ChildInfo::into_child", opaque("into_child"), "j24", fine=2)
    me, version = plain(s)[:2]
    seen = set()
    for o in s.outs:
        f = o.facts
        h, n = payload(me, "Internal", "hash"), payload(me, "Internal", "leaf_count")
        if o.kind == "panic":
            ctx.ob("child", s.fn.qual, f.truth(mk_isv(h, "None")) is True and f.truth(mk_isv(me, "Internal")) is True, "fails", "panic")
            continue
        c = o.val
        ok = proj(c, "version") is version
        ctx.ob("child", s.fn.qual, ok, "gets the version %s" % show(proj(c, "version"))[:60], "version")
        kind = proj(c, "node_type")
        if f.truth(mk_isv(me, "Leaf")) is True:
            seen.add("Leaf")
            ok = is_hash(proj(c, "hash"), payload(me, "Leaf", "node"), "LeafNode") and kind.op == "adt" and kind.a[1] == "Leaf"
        elif f.truth(mk_isv(me, "Internal")) is True and f.truth(mk_isv(n, "Some")) is not None:
            some = f.truth(mk_isv(n, "Some"))
            seen.add(("Internal", some))
            ok = proj(c, "hash") is payload(h) and kind.op == "adt" and (kind.a[1] == "Internal" and proj(kind, "leaf_count") is payload(n) if some else kind.a[1] == "InternalLegacy")
        else:
            ok = False
        ctx.ob("child", s.fn.qual, ok, "becomes %s" % show(c)[:150], "child")
    ctx.floor("child", s.fn.qual, len(seen), 3, "kinds of children")


def is_hash(h, node, kind):
    return h.op == "call" and last(h.a[0]) == "hash" and kind in h.a[0] and h.a[1] is node


def convert(ctx):
    s = ctx.summ("jmt::" + CONV, opaque("into_internal_node"), "j24", fine=2)
    me, version, flag = plain(s)[:3]
    n = 0
    kids = mk("field", me, "children")
    for o in s.outs:
        if o.kind == "panic":
            continue
        n += 1
        key, node = rd(o.val, "0"), rd(o.val, "1")
        ctx.ob("convert", s.fn.qual, key is mk("field", me, "node_key"), "is written at %s" % show(key)[:80], "key")
        ok = node.op == "call" and last(node.a[0]) == "new_migration" and node.a[2] is flag
        ctx.ob("convert", s.fn.qual, ok, "becomes %s" % show(node)[:120], "node")
        if ok:
            why = made(s, o, node.a[1], kids, version)
            ctx.ob("convert", s.fn.qual, why is None, why, "children:%s" % why)
    ctx.floor("convert", s.fn.qual, n, 1, "outcomes")


def made(s, o, t, kids, version):
    L = next((L for L in s.I.loops.values() if t in L.vars), None)
    if L is None:
        return "the children are %s" % show(t)[:100]
    init, st = L.vars[t]
    if proj(init, "num_children") is not INT0:
        return "the children start as %s" % show(init)[:80]
    if not any(k.op == "more" and k.a[1] == L.id and v is False and whole(unsieved(k.a[0])) for k, v in o.facts.d.items()):
        return "not every child is looked at"
    if any(not any(is_el(s, k, L, kids) and f.truth(mk_isv(k, "None")) is True for k in f.dom) for e, f in s.I.rejects.get(str(L.id), ())):
        return "a child is left out"
    at = mk("ind", L.id, INT0)
    n = 0
    for j, (x, f) in enumerate(st):
        f = L.backs[j].facts
        els = [k for k in f.dom if is_el(s, k, L, kids)]
        if len(els) != 1:
            return "a child is not looked at"
        el, = els
        if f.truth(mk_isv(el, "None")) is True:
            if x is not t:
                return "a child that is not there gives %s" % show(x)[:80]
            continue
        n += 1
        if f.truth(mk_isv(el, "Some")) is not True or x.op != "eff" or last(x.a[0]) != "insert" or x.a[1] != 0 or x.a[2] is not t:
            return "a child gives %s" % show(x)[:100]
        nib = proj(x.a[3], "0")
        while nib.op == "cast":
            nib = nib.a[1]
        c = x.a[4]
        if nib is not at:
            return "a child goes to %s" % show(x.a[3])[:60]
        if c.op != "call" or last(c.a[0]) != "into_child" or c.a[1] is not payload(el) or c.a[2] is not version:
            return "a child becomes %s" % show(c)[:100]
    return None if n else "no child is put in"


def whole(src):
    """all sixteen positions"""
    while src.op == "it" and src.a[0] in ("enumerate", "iter_mut", "rev", "inspect"):
        src = src.a[1]
    if src.op == "adt" and src.a[0].endswith("Range"):
        return src.a[3][0] is INT0 and src.a[3][1] is Int(16)
    return src.op != "it" and "children" in show(src)


def is_el(s, k, L, kids):
    return k.op == "elem" and k.a[1] == L.id and stems(s, k.a[0], kids) or k.op == "idx" and k.a[1] is mk("ind", L.id, INT0) and stems(s, k.a[0], kids)


def stems(s, t, kids):
    if t is kids:
        return True
    for L in s.I.loops.values():
        if t in L.vars:
            init, st = L.vars[t]
            return init is kids and all(x is t or x.op == "upd" and x.a[0] is t and x.a[1] == ("i", mk("ind", L.id, INT0)) for x, f in st)
    return False


# ---------------------------------------------------------------- freezing
LAST = "iter_last(it(map,it(filter,it(enumerate,%s),lam(cases((case((dom(bv(1,0).1,(Some))),1),case((dom(bv(1,0).1,(None))),0))))),lam(bv(1,0).0)))"


def rightmost(i, kids, s=None, f=None):
    """i is the position of the last child that is there"""
    for L in s.I.loops.values() if s else ():
        # looked for from the right, one by one
        if i is sub(Int(15), mk("ind", L.id, INT0)) and f.truth(mk_isv(idx(kids, i), "Some")) is True and \
                all(b.facts.truth(mk_isv(idx(kids, i), "None")) is True for b in L.backs):
            return True
    t = i.a[0] if i.op == "field" else i
    if t.op == "as":
        t = t.a[0]
    if show(t) == LAST % show(kids):
        return True
    if t.op != "call" or t.a[0] != "iter_rposition" or t.a[1] is not kids:
        return False
    lam = t.a[2]
    return show(lam) == "lam(cases((case((dom(bv(1,0),(Some))),1),case((dom(bv(1,0),(None))),0))))"


def leaf(ctx):
    s = ctx.summ(R + "freeze_previous_leaf", opaque("freeze_previous_leaf"), "j24", fine=2)
    me = plain(s)[0]
    q = s.fn.qual
    nodes = mk("field", me, "partial_nodes")
    low = idx(nodes, sub(mk("call", "len", nodes), INT1))
    seen = set()
    for o in s.outs:
        if o.kind == "panic":
            continue
        d = diff(final(o, me), me)
        first = o.facts.truth(mk_le(mk("field", me, "num_keys_received"), INT0))
        if first is True:
            seen.add("first")
            ctx.ob("leaf", q, d == {}, "changes %s before the first key" % d, "first")
            continue
        seen.add("leaf")
        ok = d is not None and list(d) == [(("f", "frozen_nodes"), ("f", "nodes"))]
        ctx.ob("leaf", q, ok, "changes %s" % (None if d is None else [p for p in d]), "what")
        if not ok:
            continue
        v, = d.values()
        was = rd(me, "frozen_nodes", "nodes")
        ok = v.op == "ins" and v.a[0] is was and v.a[1].op == "call" and v.a[1].a[0] == CHILD
        ctx.ob("leaf", q, ok, "puts aside %s" % show(v)[:120], "ins")
        if not ok:
            continue
        key, node = v.a[1], v.a[2]
        i = proj(key.a[3], "0")
        while i.op == "cast":
            i = i.a[1]
        kids = rd(low, "children")
        ok = rightmost(i, kids, s, o.facts) and key.a[1] is rd(low, "node_key") and is_fixed(key.a[2], "version", lambda r: r is me)
        ctx.ob("leaf", q, ok, "is put aside at %s" % show(key)[:150], "key")
        c = payload(idx(kids, i))
        ok = node.op == "adt" and node.a[1] == "Leaf" and node.a[3][0] is payload(c, "Leaf", "node") and o.facts.truth(mk_isv(c, "Leaf")) is True
        ctx.ob("leaf", q, ok, "puts aside the node %s" % show(node)[:150], "node")
    ctx.floor("leaf", q, len(seen), 2, "cases")


def internal(ctx):
    s = ctx.summ(R + "freeze_internal_nodes", opaque("freeze_internal_nodes"), "j24", fine=2)
    me, keep = plain(s)[:2]
    q = s.fn.qual
    loops = [L for L in s.I.loops.values() if any(init is mk("field", me, "partial_nodes") for init, st in L.vars.values())]
    ctx.floor("internal", q, len(loops), 1, "loops over the frontier")
    for L in loops:
        P = next(v for v, (i, st) in L.vars.items() if i is mk("field", me, "partial_nodes"))
        N = next((v for v, (i, st) in L.vars.items() if i is rd(me, "frozen_nodes", "nodes")), None)
        ctx.ob("internal", q, N is not None, "nothing is put aside", "none")
        if N is None:
            continue
        n = mk("call", "len", P)
        left = [n]
        if all(x.op == "popped" or all(y is mk("popped", P) for y in [base_of(x)]) for x, _ in L.vars[P][1]):
            # one less in every round
            left.append(sub(mk("call", "len", mk("field", me, "partial_nodes")), mk("ind", L.id, INT0)))
        seen = set()
        for j, b in enumerate(L.backs):
            f = b.facts
            ok = any(entails(f, mk_lt(keep, m)) for m in left)
            ctx.ob("internal", q, ok, "takes one of the nodes to keep", "keep")
            low = payload(mk("call", "last", P))
            conv = mk("call", CONV, low, mk("field", me, "version"), mk("field", me, "leaf_count_migration"))
            key, node = mk("field", conv, "0"), mk("field", conv, "1")
            x = L.vars[N][1][j][0]
            ok = x.op == "ins" and x.a[0] is N and x.a[1] is key and x.a[2].op == "adt" and x.a[2].a[1] == "Internal" and x.a[2].a[3][0] is node
            ctx.ob("internal", q, ok, "puts aside %s" % show(x)[:150], "aside")
            was = mk("popped", P)
            now = L.vars[P][1][j][0]
            if now is was:
                seen.add("root")
                ctx.ob("internal", q, entails(f, mk_le(n, INT1)), "a parent does not get the hash", "parent")
                continue
            seen.add("parent")
            why = told(s, now, was, sub(n, Int(2)), node, f)
            ctx.ob("internal", q, why is None, why, "told:%s" % why)
        ctx.floor("internal", q, len(seen), 2, "cases")
        for o in s.outs:
            if o.kind != "ret":
                continue
            d = diff(final(o, me), me)
            ok = d == {(("f", "partial_nodes"),): P, (("f", "frozen_nodes"), ("f", "nodes")): N}
            ctx.ob("internal", q, ok, "changes %s" % (d and [p for p in d]), "rest")
            ctx.ob("internal", q, any(entails(o.facts, mk_le(m, keep)) for m in left), "stops early", "stop")


def base_of(t):
    while t.op == "upd":
        t = t.a[0]
    return t


def told(s, now, was, at, node, f):
    d = diff(now, was)
    par = idx(was, at)
    kids = rd(par, "children")
    rs = {p[2] for p in d or {} if len(p) >= 3 and p[0] == ("i", at) and p[1] == ("f", "children")}
    if not d or len(rs) != 1 or any(len(p) < 3 or p[0] != ("i", at) or p[1] != ("f", "children") for p in d):
        return "changes more of the frontier than the parent's child"
    (k, r), = rs
    if k != "i" or not rightmost(r, kids, s, f):
        return "the hash goes to the child %s" % show(r)[:80]
    new = rd(now, ("i", at), "children", ("i", r), ("v", "Some"), "0", ("v", "Internal"))
    h, c = rd(new, "hash"), rd(new, "leaf_count")
    if not (h.op == "adt" and h.a[1] == "Some" and is_hash(h.a[3][0], node, "InternalNode")):
        return "the parent gets the hash %s" % show(h)[:80]
    count = mk("call", "node_type::InternalNode::leaf_count", node)
    old = payload(payload(idx(kids, r)), "Internal", "leaf_count")
    some = f.truth(mk_isv(count, "Some"))
    ok = c is count or some is True and c is Some(payload(count)) or some is False and (c is NONE or c is old and f.truth(mk_isv(old, "None")) is True)
    if not ok:
        return "the parent gets the number of leaves %s" % show(c)[:80]
    return None


def frozen(ctx):
    s = ctx.summ(R + "freeze", opaque("freeze"), "j24", fine=2)
    me, keep = plain(s)[:2]
    n = 0
    a = mk("eff", R[5:] + "freeze_previous_leaf", 0, me)
    b = mk("eff", R[5:] + "freeze_internal_nodes", 0, a, keep)
    for o in s.outs:
        n += 1
        ok = o.kind == "ret" and final(o, me) is b
        if o.kind == "ret" and entails(o.facts, mk_le(mk("field", me, "num_keys_received"), INT0)):
            # there is no leaf to freeze yet
            ok = ok or final(o, me) is mk("eff", R[5:] + "freeze_internal_nodes", 0, me, keep)
        ctx.ob("internal", s.fn.qual, ok, "freezing is %s" % (show(final(o, me))[:150] if o.kind == "ret" else "a failure"), "freeze")
    ctx.floor("internal", s.fn.qual, n, 1, "outcomes")


# ---------------------------------------------------------------- growing
def grow(ctx):
    s = ctx.summ(R + "add_one", opaque("add_one", "get_nibble", "visited_nibbles"), "j24", fine=2)
    q = s.fn.qual
    me, key, vh = plain(s)[:3]
    nodes = mk("field", me, "partial_nodes")
    kb = (key, mk("field", key, "0"))
    loops = list(s.I.loops.values())
    ctx.floor("grow", q, len(loops), 1, "walks")
    L = max(loops, key=lambda l: len(l.backs)) if loops else None
    if L is None:
        return
    at = mk("ind", L.id, INT0)
    seen = set()
    for b in L.backs:
        c = visited(b.facts, nodes, at, L)
        if c is None:
            ctx.ob("grow", q, False, "goes on below something that is not a frontier node", "go")
            continue
        seen.add("go")
        ok = b.facts.truth(mk_isv(payload(c[0]), "Internal")) is True
        ctx.ob("grow", q, ok, "goes on below %s" % show(c[0])[:100], "go")
        ctx.ob("grow", q, by_nibble(c[1], at, kb, b.facts), "goes to the child %s" % show(c[1])[:100], "nib")
    for o in s.outs:
        if o.kind == "panic":
            continue
        x = final(o, me)
        if x is me:
            ok = any(k.op == "more" and k.a[1] == L.id and v is False for k, v in o.facts.d.items()) or entails(o.facts, mk_le(Int(64), at))
            ctx.ob("grow", q, ok, "a key is not put anywhere", "none")
            continue
        c = visited(o.facts, nodes, at, L)
        ctx.ob("grow", q, c is not None and by_nibble(c[1], at, kb, o.facts), "puts a key at %s" % (show(c[1])[:100] if c else None), "nib")
        if c is None:
            continue
        el, i = c
        if o.facts.truth(mk_isv(el, "None")) is True:
            seen.add("leaf")
            fr = mk("eff", R[5:] + "freeze", 0, me, add(at, INT1))
            d = diff(x, fr)
            want = (("f", "partial_nodes"), ("i", at), ("f", "children"), ("i", i))
            ok = d is not None and list(d) == [want]
            ctx.ob("grow", q, ok, "a new leaf changes %s" % (d and [p for p in d]), "where")
            if ok:
                v = d[want]
                ok = v.op == "adt" and v.a[1] == "Some" and new_leaf(v.a[3][0], key, vh)
                ctx.ob("grow", q, ok, "the new child is %s" % show(v)[:150], "leaf")
        else:
            seen.add("split")
            old = payload(el)
            ok = o.facts.truth(mk_isv(old, "Leaf")) is True and x.op == "eff" and last(x.a[0]) == "insert_at_leaf" and x.a[1] == 0 and x.a[2] is me
            ctx.ob("grow", q, ok, "what is there becomes %s" % show(x)[:100], "split")
            if ok:
                _, i2, leaf_, k2, v2, rest = x.a[2:8]
                ok = i2 is i and leaf_ is payload(old, "Leaf", "node") and k2 is key and v2 is vh
                ctx.ob("grow", q, ok, "splits with %s" % show(x)[:150], "args")
                pos = rd(rest, "pos")
                ok = path_of(rd(rest, "nibble_path"), kb) and after(pos, at, L) and rd(rest, "start") is INT0
                ctx.ob("grow", q, ok, "splits with the rest %s" % show(rest)[:150], "rest")
                ok = entails(o.facts, mk_le(mk("call", "len", nodes), add(at, INT1)))
                ctx.ob("grow", q, ok, "splits a leaf above the lowest node", "low")
    ctx.floor("grow", q, len(seen), 3, "cases (%s)" % sorted(seen))


def after(pos, at, L):
    """the position of the rest: just after the nibble of this round"""
    if pos.op == "adv":
        return pos.a[0] in L.vars and rd(L.vars[pos.a[0]][0], "start") is INT0 and all(x is mk("adv", pos.a[0]) for x, f in L.vars[pos.a[0]][1])
    return rd(pos, "start") is add(at, INT1)


def path_of(p, kb):
    b = rd(p, "bytes")
    return (b in kb or b.op == "call" and b.a[1] in kb) and (rd(p, "num_nibbles") is Int(64))


def new_leaf(c, key, vh):
    n = rd(c, "node") if c.op == "adt" and c.a[1] == "Leaf" else None
    return n is not None and rd(n, "key_hash") is key and rd(n, "value_hash") is vh


def visited(f, nodes, at, L):
    """the child looked at in this round: (the child, its index)"""
    out = set()
    for k in f.dom:
        if k.op == "idx":
            c = k.a[0]
            if c.op == "field" and c.a[1] == "children" and (c.a[0] is mk("elem", nodes, L.id) or c.a[0] is mk("idx", nodes, at)):
                out.add((k, k.a[1]))
    return out.pop() if len(out) == 1 else None


def by_nibble(i, at, kb, f):
    """i is the key's nibble at the position, for every position and byte"""
    def special(F, x):
        if x.op == "idx" and x.a[0] in kb:
            return "(b if %s==i>>1 else 1<<40)" % F.e(x.a[1])
        if x.op == "call" and x.a[0] == "len" and x.a[1] in kb:
            return "32"
        return None
    try:
        F = fin.Fin({at: "i"}, special, width=64)
        g = eval("lambda i,b: %s" % F.e(i), dict(fin.ENV))
        conds = []
        for k, v in f.d.items():
            try:
                conds.append(F.b(k) if v else "(not %s)" % F.b(k))
            except fin.Unknown:
                pass
        h = eval("lambda i,b: %s" % (" and ".join(conds) or "True"), dict(fin.ENV))
    except fin.Unknown:
        return False
    for p in range(64):
        for b in range(256):
            if h(p, b):
                if g(p, b) != (b & 15 if p & 1 else b >> 4):
                    return False
    return True


# ---------------------------------------------------------------- splitting a leaf
OPEN = "Internal"


def unknown(v):
    """Some(a child of the frontier whose hash is not known yet)"""
    if v.op != "adt" or v.a[1] != "Some":
        return False
    c = v.a[3][0]
    return c.op == "adt" and c.a[1] == OPEN and rd(c, "hash") is NONE and rd(c, "leaf_count") is NONE


def at_nibble(i, key, n):
    """i is the key's nibble number n"""
    while i.op in ("cast", "field"):
        i = i.a[0] if i.op == "field" else i.a[1]
    return i.op == "call" and last(i.a[0]) == "get_nibble" and is_bytes(i.a[1], key) and i.a[2] is n


def is_bytes(t, key):
    return t is key or t is rd(key, "0")


def only_child(info, me, d_path, want):
    """why a new frontier node is not the one with the key d_path accepts and the single child want accepts"""
    if info.op != "adt":
        return "the new frontier node is %s" % show(info)[:100]
    key = rd(info, "node_key")
    if not is_fixed(proj(key, "version"), "version", lambda r: r is me):
        return "a new frontier node has the version %s" % show(proj(key, "version"))[:80]
    if not d_path(proj(key, "nibble_path")):
        return "a new frontier node is at %s" % show(proj(key, "nibble_path"))[:150]
    kids = rd(info, "children")
    base = kids
    while base.op == "upd":
        base = base.a[0]
    if not empty_kids(base):
        return "a new frontier node starts with the children %s" % show(base)[:80]
    d = diff(kids, base)
    if d is None or len(d) != 1 or len(list(d)[0]) != 1:
        return "a new frontier node has the children %s" % (d and [show(p[0][1])[:60] for p in d])
    (((k, i),), v), = d.items()
    return want(i, v)


def empty_kids(t):
    return show(t) == "repeat(None,16)" or t.op == "call" and last(t.a[0]) == "default"


def split(ctx):
    s = ctx.summ(R + "insert_at_leaf", opaque("insert_at_leaf"), "j24", fine=2)
    q = s.fn.qual
    me, ci, old, key, vh, rest = plain(s)[:6]
    nodes = mk("field", me, "partial_nodes")
    okey = rd(old, "key_hash")
    n = 0
    for o in s.outs:
        if o.kind != "ret":
            continue
        n += 1
        x = final(o, me)
        why = splits(s, o, x, me, ci, old, okey, key, vh, rest, nodes)
        ctx.ob("split", q, why is None, why, "split:%s" % why)
    ctx.floor("split", q, n, 1, "outcomes")


def splits(s, o, x, me, ci, old, okey, key, vh, rest, nodes):
    fr = x
    while fr.op == "upd":
        fr = fr.a[0]
    if fr.op != "eff" or last(fr.a[0]) != "freeze" or fr.a[1] != 0:
        return "the old leaf is not frozen"
    pre, keep = fr.a[2:4]
    d = diff(pre, me)
    if d is None or list(d) != [(("f", "partial_nodes"),)] and any(p[0] != ("f", "partial_nodes") for p in d):
        return "more than the frontier changes"
    P = rd(pre, "partial_nodes")
    if P.op != "push":
        return "no node is made where the keys part"
    lv = P.a[0]
    if keep is not mk("call", "len", P) and keep is not add(mk("call", "len", lv), INT1):
        return "freezes down to %s frontier nodes" % show(keep)[:80]
    L = next((L for L in s.I.loops.values() if lv in L.vars), None)
    if L is None:
        return "the frontier does not reach where the keys part"
    # what is there becomes a frontier node
    init, st = L.vars[lv]
    low = sub(mk("call", "len", nodes), INT1)
    d = diff(init, nodes)
    if d is None or list(d) != [(("i", low), ("f", "children"), ("i", ci))] or not unknown(list(d.values())[0]):
        return "the child that was the leaf does not become a frontier node"
    # the shared nibbles
    common = next((k for k in subterms(x) if k.op == "call" and last(k.a[0]) == "common_prefix_nibbles_len"), None)
    if common is None or not (is_bytes(common.a[1], okey) and is_bytes(common.a[2], key) or is_bytes(common.a[1], key) and is_bytes(common.a[2], okey)):
        return "where the keys part is taken to be %s" % (common and show(common)[:80])
    ind = mk("ind", L.id, INT0)
    n0 = mk("call", "len", nodes)
    here = (add(n0, ind), mk("call", "len", lv))
    pos = [v for v, (i, _) in L.vars.items() if i is rd(rest, "pos")]
    if not (any(entails(o.facts, mk_le(common, h)) for h in here)):
        return "stops before the keys part"
    for j, (y, f) in enumerate(st):
        f = L.backs[j].facts
        if not any(entails(f, mk_lt(h, common)) for h in here):
            return "goes on beyond where the keys part"
        if y.op != "push" or y.a[0] is not lv:
            return "a shared nibble makes of the frontier %s" % show(y)[:80]
        if any(L.vars[p][1][j][0] is not mk("adv", p) for p in pos):
            return "the position does not go on by one"

        def want(i, v):
            if not unknown(v):
                return "a new frontier node has the child %s" % show(v)[:80]
            if not (any(at_nibble(i, key, h) for h in here) or any(nibble_here(i, rest, p) for p in pos)):
                return "a new frontier node goes on at %s" % show(i)[:100]
        why = only_child(y.a[1], me, lambda t: visited_path(t, rest, pos, key, here), want)
        if why:
            return why

    def want(i, v):
        if not at_nibble(i, okey, common):
            return "the old leaf goes to %s" % show(i)[:100]
        if not (v.op == "adt" and v.a[1] == "Some" and v.a[3][0].op == "adt" and v.a[3][0].a[1] == "Leaf" and rd(v.a[3][0], "node") is old):
            return "the old leaf becomes %s" % show(v)[:100]
    why = only_child(P.a[1], me, lambda t: visited_path(t, rest, pos, key, here + (common,)), want)
    if why:
        return why
    d = diff(x, fr)
    if d is None or len(d) != 1:
        return "the new leaf changes %s" % (d and [p for p in d])
    (p, v), = d.items()
    fn = rd(fr, "partial_nodes")
    ends = [sub(mk("call", "len", fn), INT1), sub(mk("call", "len", P), INT1), mk("call", "len", lv), common]
    if len(p) != 4 or p[0] != ("f", "partial_nodes") or p[1][0] != "i" or p[1][1] not in ends or p[2] != ("f", "children"):
        return "the new leaf goes to %s" % show(p[1][1])[:100]
    if not at_nibble(p[3][1], key, common):
        return "the new leaf goes to the child %s" % show(p[3][1])[:100]
    if not (v.op == "adt" and v.a[1] == "Some" and new_leaf(v.a[3][0], key, vh)):
        return "the new child is %s" % show(v)[:100]
    return None


def nibble_here(i, rest, pos):
    """i is the nibble the rest of the key goes on with"""
    while i.op in ("cast", "field"):
        i = i.a[0] if i.op == "field" else i.a[1]
    if i.op != "call" or last(i.a[0]) != "get_nibble" or i.a[1] is not rd(rest, "nibble_path"):
        return False
    return i.a[2] is mk("item", pos, INT0) or show(i.a[2]) in (show(pos) + "[0]", show(pos) + ".start")


def visited_path(t, rest, pos, key, here):
    """t is the path of the nibbles gone by"""
    if t.op != "call" or last(t.a[0]) != "from_iter":
        return False
    v = t.a[1]
    if v.op == "call" and last(v.a[0]) == "visited_nibbles":
        d = diff(v.a[1], rest)
        return d is not None and list(d) == [(("f", "pos"),)] and d[(("f", "pos"),)] in pos
    return False


# ---------------------------------------------------------------- recovering
def recover(ctx):
    s = ctx.summ(R + "recover_partial_nodes", opaque("recover_partial_nodes"), "j24", fine=2)
    q = s.fn.qual
    store, version, low = plain(s)[:3]
    loops = s.I.loops.values()
    climbs = [(L, v) for L in loops for v, (i, st) in L.vars.items() if is_parent(i, low)]
    ctx.floor("recover", q, len(climbs), 1, "climbs from the rightmost leaf")
    if not climbs:
        return
    A, K = climbs[0]
    got = lambda f, k: next((c for c in f.dom if is_get(c, store) and c.a[2] is k), None)
    for j, b in enumerate(A.backs):
        c = got(b.facts, K)
        ok = is_parent(A.vars[K][1][j][0], K) and c is not None and b.facts.truth(mk_isv(c, "Ok")) is True and b.facts.truth(mk_isv(payload(c, "Ok"), "Some")) is True
        ctx.ob("recover", q, ok, "climbs over a node that is not stored", "climb")
    n = 0
    for o in s.outs:
        if o.kind != "ret":
            continue
        if ok_of(o) is None:
            ctx.ob("recover", q, fails(o, store, low), "fails on what it can recover", "fails")
            continue
        n += 1
        c = got(o.facts, K)
        ok = c is not None and o.facts.truth(mk_isv(payload(c, "Ok"), "None")) is True
        ctx.ob("recover", q, ok, "recovers a node that is stored", "stored")
        v = o.val.a[3][0]
        up = v.op == "ins" and v.a[1] is INT0
        if not up and (v.op != "reversed" or v.a[0].op != "push"):
            ctx.ob("recover", q, False, "the frontier is %s" % show(v)[:100], "result")
            continue
        P, info = (v.a[0], v.a[2]) if up else v.a[0].a[:2]
        B = next((L for L in loops if P in L.vars), None)
        N = B and next((x for x, (i, st) in B.vars.items() if i is K), None)
        V = B and next((x for x, (i, st) in B.vars.items() if i is NONE), None)
        ok = B is not None and N is not None and V is not None and is_empty(B.vars[P][0])
        ctx.ob("recover", q, ok, "does not recover level by level", "levels")
        if not ok:
            continue
        why = level(s, o.facts, info, N, V, store, version)
        ctx.ob("recover", q, why is None, why, "level:%s" % why)
        root = entails(o.facts, mk_le(proj(N, "nibble_path", "num_nibbles"), INT0)) or is_last_nibble(NONE, N, o.facts)
        ctx.ob("recover", q, root, "stops before the root", "root")
        for j, b in enumerate(B.backs):
            x = B.vars[P][1][j][0]
            if up:
                y = x.a[2] if x.op == "ins" and x.a[0] is P and x.a[1] is INT0 else None
            else:
                y = x.a[1] if x.op == "push" and x.a[0] is P else None
            why = "a level gives %s" % show(x)[:80] if y is None else level(s, b.facts, y, N, V, store, version)
            ctx.ob("recover", q, why is None, why, "level:%s" % why)
            ctx.ob("recover", q, is_parent(B.vars[N][1][j][0], N), "goes on at %s" % show(B.vars[N][1][j][0])[:80], "up")
            ctx.ob("recover", q, is_last_nibble(B.vars[V][1][j][0], N, b.facts), "the child above is %s" % show(B.vars[V][1][j][0])[:150], "prev")
    ctx.floor("recover", q, n, 1, "outcomes")


def is_parent(t, k):
    return t.op == "call" and last(t.a[0]) == "gen_parent_node_key" and t.a[1] is k


def is_get(c, store):
    return c.op == "call" and last(c.a[0]) == "get_node_option" and c.a[1] is store


def is_empty(t):
    return show(t) in ("empty()", "[]")


def fails(o, store, low):
    f = o.facts
    if entails(f, mk_le(proj(low, "nibble_path", "num_nibbles"), INT0)):
        return True
    for c in f.dom:
        if is_get(c, store) and f.truth(mk_isv(c, "Err")) is True:
            return True
        if is_get(c, store) and f.truth(mk_isv(payload(payload(c, "Ok")), "Null")) is True:
            return True
    return False


def is_last_nibble(t, N, f):
    """the last nibble of the node's path, if any"""
    path = proj(N, "nibble_path")
    c = next((k for k in f.dom if k.op == "call" and last(k.a[0]) == "last" and k.a[1] is path), None)
    if c is not None and f.truth(mk_isv(c, "None")) is True:
        return t is NONE or t is c
    if t.op == "adt" and t.a[1] == "Some":
        i = t.a[3][0]
        while i.op == "cast" or i.op == "field" and i.a[1] == "0" and (c is None or i is not payload(c)):
            i = i.a[1] if i.op == "cast" else i.a[0]
        if c is not None and i is payload(c):
            return True
        return i.op == "call" and last(i.a[0]) == "get_nibble" and i.a[1] is path and i.a[2] is sub(rd(path, "num_nibbles"), INT1)
    return False


def level(s, f, info, N, V, store, version):
    """why the frontier node is not the one at key N with what is stored to the left of the level below"""
    if info.op != "adt" or rd(info, "node_key") is not N:
        return "the frontier node is at %s" % show(rd(info, "node_key"))[:80]
    kids = rd(info, "children")
    base = kids
    while base.op == "upd":
        base = base.a[0]
    above = f.truth(mk_isv(V, "Some"))
    d = diff(kids, base)
    want = payload(V)
    if above is True:
        if d is None or list(d) != [(("i", want),)] or not unknown(list(d.values())[0]):
            return "the child above is %s" % (d and [show(x)[:80] for x in d.values()])
    elif d != {} or f.truth(mk_isv(V, "None")) is not True:
        return "a lowest node has one more child"
    L = next((L for L in s.I.loops.values() if base in L.vars), None)
    if L is None or not empty_kids(L.vars[base][0]):
        return "the children are %s" % show(base)[:80]
    at = mk("ind", L.id, INT0)
    end = want if above is True else Int(16)
    if not entails(f, mk_le(end, at)):
        return "not every child is looked up"
    seen = set()
    for j, (x, _) in enumerate(L.vars[base][1]):
        g = L.backs[j].facts
        if not entails(g, mk_lt(at, end)):
            return "a child beyond the level below is looked up"
        c = [c for c in g.dom if is_get(c, store) and is_child(c.a[2], N, version, at)]
        if len(c) != 1 or g.truth(mk_isv(c[0], "Ok")) is not True:
            return "a child is not looked up"
        r = payload(c[0], "Ok")
        if g.truth(mk_isv(r, "None")) is True:
            seen.add("None")
            if x is not base and diff(x, base) != {(("i", at),): NONE}:
                return "a child that is not stored becomes %s" % show(x)[:80]
            continue
        node = payload(r)
        e = diff(x, base)
        if e is None or list(e) != [(("i", at),)]:
            return "a stored child changes %s" % (e and [show(p[0][1])[:60] for p in e])
        v, = e.values()
        if v.op != "adt" or v.a[1] != "Some":
            return "a stored child becomes %s" % show(v)[:80]
        v = v.a[3][0]
        if g.truth(mk_isv(node, "Leaf")) is True:
            seen.add("Leaf")
            ok = v.a[1] == "Leaf" and rd(v, "node") is payload(node, "Leaf")
        elif g.truth(mk_isv(node, "Internal")) is True:
            seen.add("Internal")
            m = payload(node, "Internal")
            h, k = rd(v, "hash"), rd(v, "leaf_count")
            ok = v.a[1] == "Internal" and h.op == "adt" and h.a[1] == "Some" and is_hash(h.a[3][0], m, "InternalNode") and k is mk("call", "node_type::InternalNode::leaf_count", m)
        else:
            ok = False
        if not ok:
            return "a stored child becomes %s" % show(v)[:150]
    if len(seen) != 3:
        return "only the children %s are seen" % sorted(seen)
    return None


def is_child(k, N, version, at):
    if k.op != "call" or k.a[0] != CHILD or k.a[1] is not N or k.a[2] is not version:
        return False
    i = k.a[3]
    i = rd(i, "0")
    while i.op == "cast":
        i = i.a[1]
    return i is at


def begin(ctx):
    for name in ("new", "new_overwrite"):
        s = ctx.summ(R + name, begins, "j24", fine=2)
        q = s.fn.qual
        version = plain(s)[1]
        n = 0
        for o in s.outs:
            if o.kind != "ret" or ok_of(o) is None:
                continue
            n += 1
            v = rd(o.val.a[3][0], "partial_nodes")
            right = next((c for c in o.facts.dom if c.op == "call" and last(c.a[0]) == "get_rightmost_leaf"), None)
            some = right is not None and o.facts.truth(mk_isv(payload(right, "Ok"), "Some"))
            if name == "new" and some is True:
                ctx.ob("begin", q, recovered(v, version, payload(payload(right, "Ok"))), "resumes with the frontier %s" % show(v)[:120], "resume")
                continue
            ok = name != "new" or right is not None and some is False
            ctx.ob("begin", q, ok and root_only(v, version), "starts with the frontier %s" % show(v)[:120], "start")
        ctx.floor("begin", q, n, 2 if name == "new" else 1, "outcomes")


def begins(f):
    return True if last(f.qual) == "recover_partial_nodes" else None


def recovered(v, version, leaf_):
    c = next((k for k in subterms(v) if k.op == "call" and last(k.a[0]) == "recover_partial_nodes"), None)
    return c is not None and v is payload(c, "Ok") and c.a[2] is version and c.a[3] is rd(leaf_, "0")


def root_only(v, version):
    if v.op == "arr":
        xs = v.a[0]
    elif v.op == "push" and is_empty(v.a[0]):
        xs = v.a[1:]
    else:
        return False
    if len(xs) != 1:
        return False
    key, kids = rd(xs[0], "node_key"), rd(xs[0], "children")
    return rd(key, "version") is version and rd(key, "nibble_path", "num_nibbles") is INT0 and empty_kids(kids)


# ---------------------------------------------------------------- finishing
def ends(f):
    return True if last(f.qual) == "freeze" or hashing(f) else None


def end(ctx):
    for q in (T_FIN, T_FIN + "_box"):
        s = ctx.summ(q, ends, "j24", fine=2)
        me = plain(s)[0]
        root = idx(mk("field", me, "partial_nodes"), INT0)
        fr = mk("eff", R[5:] + "freeze", 0, me, INT0)
        seen = set()
        for o in s.outs:
            if o.kind == "panic":
                continue
            for e in o.events:
                if e.kind != "call" or last(e.name) != WRITE:
                    continue
                batch = e.res.a[2]
                d = diff(batch, mk("field", me, "frozen_nodes"))
                if d is None:
                    seen.add("all")
                    ctx.ob("end", q, batch is rd(fr, "frozen_nodes"), "writes %s" % show(batch)[:150], "all")
                    ctx.ob("end", q, not_one_leaf(s, e.facts, me, root), "a single leaf may be written below the root", "one")
                    continue
                seen.add("one")
                v = d.get((("f", "nodes"),))
                ok = len(d) == 1 and v is not None and v.op == "ins" and v.a[0] is rd(me, "frozen_nodes", "nodes") and from_leaf(s, v.a[2], root)
                ctx.ob("end", q, ok, "writes as the root %s" % show(v)[:150], "root")
        ctx.floor("end", q, len(seen), 2, "cases")


def child_loops(s, root):
    """(loop, per round: is there a child, is it a leaf, the child)"""
    kids = rd(root, "children")
    for L in s.I.loops.values():
        out = []
        if any(f.truth(mk_isv(e, "None")) is not True for e, f in s.I.rejects.get(str(L.id), ())):
            continue
        for b in L.backs:
            els = [k for k in b.facts.dom if k is mk("elem", kids, L.id) or k.op == "idx" and k.a[0] is kids and k.a[1] is mk("ind", L.id, INT0)]
            if len(els) != 1:
                break
            el, = els
            some = b.facts.truth(mk_isv(el, "Some"))
            out.append((some, b.facts.truth(mk_isv(payload(el), "Leaf")) if some is True else None, payload(el)))
        else:
            if out:
                yield L, out


def not_one_leaf(s, f, me, root):
    n = mk("call", "len", mk("field", me, "partial_nodes"))
    if other_than_one(f, n):
        return True
    for L, rounds in child_loops(s, root):
        if not any(k.op == "more" and k.a[1] == L.id and v is False for k, v in f.d.items()):
            continue
        if all(leaf is not True for _, leaf, _ in rounds):
            return True
        for v, (init, st) in L.vars.items():
            if init is INT0 and all(x is (add(v, INT1) if some is True else v) for (x, _), (some, _, _) in zip(st, rounds)) and other_than_one(f, v):
                return True
            if init is NONE and all(x.op == "adt" and x.a[1] == "Some" if leaf is True else x is v for (x, _), (_, leaf, _) in zip(st, rounds)) and f.truth(mk_isv(v, "None")) is True:
                return True
    return False


def other_than_one(f, n):
    return entails(f, mk_le(Int(2), n)) or entails(f, mk_le(n, INT0)) or any(k.op == "eq0" and k.a[0] is sub(n, INT1) and v is False for k, v in f.d.items())


def from_leaf(s, node, root):
    if node.op != "adt" or node.a[1] != "Leaf":
        return False
    x = node.a[3][0]
    for L, rounds in child_loops(s, root):
        if x is payload(payload(mk("elem", rd(root, "children"), L.id)), "Leaf", "node"):
            return True
        for v, (init, st) in L.vars.items():
            if x is payload(v) and init is NONE:
                return all(y is (Some(payload(c, "Leaf", "node")) if leaf is True else v) for (y, _), (_, leaf, c) in zip(st, rounds))
    return any(k.op == "idx" and k.a[0] is rd(root, "children") and x is payload(payload(k), "Leaf", "node") for k in subterms(x))
