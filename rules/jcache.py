"""The staging area of an update: layers, additions, removals and freezing (J09)."""
from lib import *
from jdb import lnv, plain, seq_cases

TC = "jmt::tree_cache::TreeCache::<'a, R>::"
INTO = "jmt::tree_cache::<impl core::convert::From<tree_cache::TreeCache<'a, R>> for (alloc::vec::Vec<RootHash>, writer::TreeUpdateBatch)>::from"
READ = "reader::TreeReader::get_node_option"
HASH = "jmt::node_type::Node::hash"
FIELDS = ("root_node_key", "next_version", "node_cache", "value_cache", "num_new_leaves", "stale_node_index_cache", "num_stale_leaves", "frozen_cache", "reader")


def f_(x, *ns):
    for n in ns:
        x = proj(x, n)
    return x


def get(m, k):
    return mk("call", "get", m, k)


def kept(o, selfv, changed):
    """names of the fields that changed although they must not"""
    e = final(o, selfv)
    return [n for n in FIELDS if n not in changed and f_(e, n) is not f_(selfv, n)]


def is_null(t):
    return t.op == "adt" and t.a[1] == "Null"


def check_cache(ctx):
    ctx.rule("layers", "a node is looked up among this version's staged nodes, then those of the batch's earlier versions, then in storage")
    ctx.rule("put", "a node is staged under its key exactly when that key is free, and otherwise refused; nothing else changes")
    ctx.rule("value", "a value is staged under its version and key, the last one written counting")
    ctx.rule("delete", "a node staged in this version is unstaged; any other is recorded as stale, once")
    ctx.rule("freeze", "freezing records the current root's hash after the earlier ones, moves every staged node, value and stale marker on, with the version, and continues with the next version")
    ctx.rule("unchanged", "a version that changes nothing gets a copy of the root under its own version")
    ctx.rule("start", "staging starts empty, on the previous version's root; a first version starts on the root from before it if there is one and otherwise on an empty tree")
    ctx.rule("result", "the result holds the root hashes, nodes, values and stale markers of all frozen versions")
    layers(ctx)
    puts(ctx)
    deletes(ctx)
    freezing(ctx)
    starting(ctx)
    result(ctx)


def lookup(f, selfv, key, node_cache=None):
    """what the layers give on this path: a node, NONE, 'err', or None when the path does not tell"""
    a = get(node_cache if node_cache is not None else f_(selfv, "node_cache"), key)
    if f.truth(mk_isv(a, "Some")) is True:
        return payload(a)
    if f.truth(mk_isv(a, "None")) is not True:
        return None
    b = get(f_(selfv, "frozen_cache", "node_cache", "nodes"), key)
    if f.truth(mk_isv(b, "Some")) is True:
        return payload(b)
    if f.truth(mk_isv(b, "None")) is not True:
        return None
    c = mk("call", READ, f_(selfv, "reader"), key)
    if f.truth(mk_isv(c, "Err")) is True:
        return "err"
    if f.truth(mk_isv(c, "Ok")) is not True:
        return c if f.truth(mk_isv(c, "Err")) is None else None
    x = payload(c, "Ok")
    if f.truth(mk_isv(x, "Some")) is True:
        return payload(x)
    if f.truth(mk_isv(x, "None")) is True:
        return NONE
    return x


def layers(ctx):
    for name in ("get_node", "get_node_option"):
        s = ctx.summ(TC + name, None, "j09", fine=2)
        q = s.fn.qual
        selfv, key = plain(s)
        opt = name.endswith("option")
        n = 0
        for o in s.outs:
            x = lookup(o.facts, selfv, key)
            n += 1
            if o.kind == "panic" or x is None:
                ctx.ob("layers", q, False, "a path does not go through the layers" if x is None else "can panic", "path")
                continue
            if x == "err":
                ok = is_err(o)
            elif x.op == "call" and x.a[0] == READ:
                ok = opt and o.val is x
            elif x is NONE:
                ok = not is_err(o) and okv(o) is NONE if opt else is_err(o)
            else:
                v = None if is_err(o) else okv(o)
                ok = v is not None and (v is x if not opt else v is Some(x) or v is x)
                if x.op == "field" and x.a[0].op == "as" and x.a[0].a[1] == "Some":
                    # the whole option may be handed on
                    ok = ok or opt and v is x.a[0].a[0]
            ctx.ob("layers", q, ok, "%s gives %s" % (x if isinstance(x, str) else show(x)[:80], show(o.val)[:100]), "row")
            ctx.ob("layers", q, all(e.kind not in ("mut", "store") for e in o.events), "changes something", "pure")
        ctx.floor("layers", q, n, 3, "outcomes")


def okv(o):
    return o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Ok" else payload(o.val, "Ok")


def puts(ctx):
    s = ctx.summ(TC + "put_node", None, "j09", fine=2)
    q = s.fn.qual
    selfv, key, node = plain(s)
    seen = set()
    m = f_(selfv, "node_cache")
    for o in s.outs:
        t = o.facts.truth(mk_isv(get(m, key), "Some"))
        e = final(o, selfv)
        if t is None or o.kind == "panic":
            ctx.ob("put", q, False, "can panic" if t is not None else "does not look whether the key is free", "path")
            continue
        seen.add(t)
        if t:
            ctx.ob("put", q, is_err(o) and not kept(o, selfv, ()), "a taken key gives %s" % show(o.val)[:80], "taken")
        else:
            ctx.ob("put", q, not is_err(o) and f_(e, "node_cache") is mk("ins", m, key, node), "a free key gives %s and %s" % (show(o.val)[:60], show(f_(e, "node_cache"))[:100]), "free")
            ctx.ob("put", q, not kept(o, selfv, ("node_cache", "num_new_leaves")), "changes %s" % kept(o, selfv, ("node_cache", "num_new_leaves")), "else")
            leaf = o.facts.truth(mk_isv(node, "Leaf"))
            n = f_(selfv, "num_new_leaves")
            ok = f_(e, "num_new_leaves") is (n if leaf is False else add(n, INT1)) and leaf is not None
            ctx.ob("put", q, ok, "counts %s new leaves" % show(f_(e, "num_new_leaves"))[:80], "count")
    ctx.ob("put", q, seen == {True, False}, "cases: %s" % seen, "cases")
    s = ctx.summ(TC + "put_value", None, "j09", fine=2)
    q = s.fn.qual
    selfv, ver, key, val = plain(s)
    for o in s.outs:
        e = final(o, selfv)
        ok = o.kind == "ret" and not kept(o, selfv, ("value_cache",)) and f_(e, "value_cache") is mk("ins", f_(selfv, "value_cache"), mk("tuple", (ver, key)), val)
        ctx.ob("value", q, ok, "gives %s" % show(f_(e, "value_cache"))[:120], "row")
    ctx.floor("value", q, len(s.outs), 1, "outcomes")


def deletes(ctx):
    s = ctx.summ(TC + "delete_node", None, "j09", fine=2)
    q = s.fn.qual
    selfv, key, leaf = plain(s)
    m, st = f_(selfv, "node_cache"), f_(selfv, "stale_node_index_cache")
    seen = set()
    for o in s.outs:
        t = o.facts.truth(mk_isv(get(m, key), "Some"))
        e = final(o, selfv)
        if t is None:
            ctx.ob("delete", q, False, "does not look whether the node was staged", "path")
            continue
        has = o.facts.truth(mk("call", "has", st, key)) if not t else None
        if o.kind == "panic":
            ctx.ob("delete", q, not t and has is True, "can panic", "panic")
            continue
        seen.add(t)
        if not t:
            ctx.ob("delete", q, has is False, "a node is recorded as stale a second time", "twice")
        nl, sl = f_(selfv, "num_new_leaves"), f_(selfv, "num_stale_leaves")
        l = o.facts.truth(leaf)
        if t:
            ok = f_(e, "node_cache") is mk("rem", m, key) and f_(e, "stale_node_index_cache") is st
            want = (sub(nl, INT1) if l else nl, sl)
        else:
            ok = f_(e, "node_cache") in (m, mk("rem", m, key)) and f_(e, "stale_node_index_cache") is mk("ins", st, key)
            want = (nl, add(sl, INT1) if l else sl)
        ctx.ob("delete", q, ok, "a %s node gives %s / %s" % ("staged" if t else "stored", show(f_(e, "node_cache"))[:80], show(f_(e, "stale_node_index_cache"))[:80]), "row:%s" % t)
        ctx.ob("delete", q, l is not None and (f_(e, "num_new_leaves"), f_(e, "num_stale_leaves")) == want, "counts are %s, %s" % (show(f_(e, "num_new_leaves"))[:60], show(f_(e, "num_stale_leaves"))[:60]), "count:%s" % t)
        bad = kept(o, selfv, ("node_cache", "stale_node_index_cache", "num_new_leaves", "num_stale_leaves"))
        ctx.ob("delete", q, not bad, "changes %s" % bad, "else")
    ctx.ob("delete", q, seen == {True, False}, "cases: %s" % seen, "cases")


def moved(x, base, src, elem=None):
    """x is base with everything of src added, each element as `elem` makes it"""
    if x.op != "append" or x.a[0] is not base:
        return False
    y = x.a[1]
    if y is src:
        return elem is None
    c = seq_cases(y)
    if c is None or c[0] is not src or len(c[1]) != 1 or c[1][0][0]:
        return False
    v = c[1][0][1]
    e = [t for t in subterms(v) if t.op == "elem" and t.a[0] is src]
    if len(set(e)) != 1:
        return False
    want = e[0] if elem is None else None
    if elem is None:
        return v is want or v.op == "tuple" and len(v.a[0]) == 2 and all(p is mk("field", e[0], str(i)) for i, p in enumerate(v.a[0]))
    return elem(v, e[0])


def freezing(ctx):
    s = ctx.summ(TC + "freeze", lambda fn: fn.qual == HASH, "j09f", fine=2)
    q = s.fn.qual
    (selfv,) = plain(s)
    rk, ver, m = f_(selfv, "root_node_key"), f_(selfv, "next_version"), f_(selfv, "node_cache")
    st = f_(selfv, "stale_node_index_cache")
    fz = f_(selfv, "frozen_cache")
    seen = set()
    for o in s.outs:
        f = o.facts
        if o.kind == "panic":
            ctx.ob("freeze", q, False, "can panic", "panic")
            continue
        x = lookup(f, selfv, rk)
        if x is None:
            ctx.ob("freeze", q, False, "does not look up the root", "root")
            continue
        if x == "err":
            seen.add("err")
            ctx.ob("freeze", q, is_err(o) and not kept(o, selfv, ()), "a failed read of the root gives %s" % show(o.val)[:80], "err")
            continue
        if x is NONE:
            root = None
        else:
            root = x
        e = final(o, selfv)
        ez = f_(e, "frozen_cache")
        no_node = entails(f, mk_eq(lnv(m), INT0))
        no_stale = entails(f, mk_eq(lnv(st), INT0))
        later = entails(f, mk_lt(INT0, ver))
        nothing = x is not NONE and no_node and no_stale and later
        if is_err(o):
            # a copy of the root never meets a staged node: there is none
            ok = nothing and any(k.op == "call" and k.a[0] == "get" and k.a[1] is m and f.truth(mk_isv(k, "Some")) is True for k in f.dom)
            ctx.ob("freeze", q, ok, "freezing can fail", "fail")
            continue
        h = f_(ez, "root_hashes")
        ok = h.op == "push" and h.a[0] is f_(fz, "root_hashes") and h.a[1].op == "adt" and h.a[1].a[0].endswith("RootHash")
        hv = h.a[1].a[3][0] if ok else None
        ok = ok and hv.op == "call" and "jmt::" + hv.a[0] == HASH and (is_null(hv.a[1]) if x is NONE else hv.a[1] is root)
        ctx.ob("freeze", q, ok, "the root hash recorded is %s" % show(h)[:120], "hash")
        empty = lambda c: f.truth(mk_eq(lnv(c), INT0)) is True
        # the nodes staged in the end
        ns = f_(ez, "node_cache", "nodes")
        m2 = ns.a[1] if ns.op == "append" else None
        ok = m2 is not None and ns.a[0] is f_(fz, "node_cache", "nodes")
        if m2 is not None and m2.op == "coll":
            ok = moved(ns, f_(fz, "node_cache", "nodes"), m2.a[1])
            m2 = m2.a[1]
        if ns is f_(fz, "node_cache", "nodes") and empty(m):
            # nothing to move
            ok, m2 = True, m
        ctx.ob("freeze", q, ok, "staged nodes become %s" % show(ns)[:120], "nodes")
        if x is NONE:
            seen.add("none")
            ok = m2 is not None and m2.op == "ins" and m2.a[0] is m and m2.a[1] is rk and is_null(m2.a[2])
            ctx.ob("freeze", q, ok, "without a root the nodes are %s" % (show(m2)[:120] if m2 else "?"), "none")
        elif nothing:
            seen.add("same")
            ok = m2 is not None and m2.op == "ins" and m2.a[0] is m and f_(m2.a[1], "version") is ver and f_(m2.a[1], "nibble_path") is f_(rk, "nibble_path") and m2.a[2] is root
            ctx.ob("unchanged", q, ok, "a version without a change has the nodes %s" % (show(m2)[:120] if m2 else "?"), "same")
        else:
            seen.add("change")
            # something changed, or it is the first version
            ok = m2 is m and not (possible(f, [(mk_eq(lnv(m), INT0), True), (mk_eq(lnv(st), INT0), True), (mk_lt(INT0, ver), True)]))
            ctx.ob("unchanged", q, ok, "a changed version has the nodes %s, or an unchanged one no root" % (show(m2)[:120] if m2 else "?"), "change")
        vs = f_(ez, "node_cache", "values")
        ctx.ob("freeze", q, moved(vs, f_(fz, "node_cache", "values"), f_(selfv, "value_cache")) or vs is f_(fz, "node_cache", "values") and empty(f_(selfv, "value_cache")), "staged values become %s" % show(vs)[:120], "values")
        ss = f_(ez, "stale_node_index_cache")
        ok = moved(ss, f_(fz, "stale_node_index_cache"), st, lambda v, e_: v.op == "adt" and f_(v, "stale_since_version") is ver and f_(v, "node_key") is e_) or ss is f_(fz, "stale_node_index_cache") and empty(st)
        ctx.ob("freeze", q, ok, "stale markers become %s" % show(ss)[:160], "stale")
        leaf = f.truth(mk_isv(root, "Leaf")) if nothing else False
        n = f_(selfv, "num_new_leaves")
        want = {"new_nodes": lnv(m2) if m2 is not None else None, "new_leaves": add(n, INT1) if leaf else n, "stale_nodes": lnv(st), "stale_leaves": f_(selfv, "num_stale_leaves")}
        sv = f_(ez, "node_stats")
        ok = leaf is not None and sv.op == "push" and sv.a[0] is f_(fz, "node_stats") and all(f_(sv.a[1], k) is v for k, v in want.items())
        ctx.ob("freeze", q, ok, "statistics are %s" % show(sv)[:160], "stats")
        ok = all(f_(e, k).op == "empty" for k in ("node_cache", "value_cache", "stale_node_index_cache")) and f_(e, "num_new_leaves") is INT0 and f_(e, "num_stale_leaves") is INT0
        ctx.ob("freeze", q, ok, "something stays behind", "empty")
        ctx.ob("freeze", q, f_(e, "next_version") is add(ver, INT1), "the next version is %s" % show(f_(e, "next_version"))[:80], "next")
        ctx.ob("freeze", q, f_(e, "root_node_key") is rk and f_(e, "reader") is f_(selfv, "reader"), "the root key becomes %s" % show(f_(e, "root_node_key"))[:80], "rootkey")
    ctx.ob("freeze", q, {"err", "none", "same", "change"} <= seen, "cases: %s" % sorted(seen), "cases")


def possible(f, gs):
    g = narrow(f, gs)
    if g is None:
        return False
    # a difference that the assumed equalities rule out
    return not any(not v and k.op == "eq0" and g.ge0_deep(k.a[0]) and g.ge0_deep(neg(k.a[0])) for k, v in g.d.items())


def root_at(k, v):
    """k is the key of a root at version v"""
    p = f_(k, "nibble_path")
    return f_(k, "version") is v and p.op == "adt" and f_(p, "num_nibbles") is INT0 and f_(p, "bytes").op == "empty"


def starting(ctx):
    s = ctx.summ(TC + "new", None, "j09", fine=2)
    q = s.fn.qual
    reader, ver = plain(s)
    seen = set()
    pre = Int((1 << 64) - 1)
    for o in s.outs:
        f = o.facts
        if o.kind == "panic":
            ctx.ob("start", q, False, "can panic", "panic")
            continue
        first = entails(f, mk_eq(ver, INT0))
        rd = [t for t in f.dom if t.op == "call" and t.a[0] == READ]
        if is_err(o):
            ok = first and len(rd) == 1 and f.truth(mk_isv(rd[0], "Err")) is True
            ctx.ob("start", q, ok, "can fail", "fail")
            continue
        c = okv(o)
        zs = f_(c, "frozen_cache")
        ok = all(f_(c, k).op == "empty" for k in ("value_cache", "stale_node_index_cache")) and f_(c, "next_version") is ver and f_(c, "reader") is reader
        ok = ok and f_(c, "num_new_leaves") is INT0 and f_(c, "num_stale_leaves") is INT0
        ok = ok and all(f_(zs, *k).op == "empty" for k in (("node_cache", "nodes"), ("node_cache", "values"), ("stale_node_index_cache",), ("node_stats",), ("root_hashes",)))
        ctx.ob("start", q, ok, "starts with %s" % show(c)[:160], "empty")
        m, rk = f_(c, "node_cache"), f_(c, "root_node_key")
        if not first:
            seen.add("later")
            ok = entails(f, mk_lt(INT0, ver)) and m.op == "empty" and root_at(rk, sub(ver, INT1))
            ctx.ob("start", q, ok, "a later version starts on %s" % show(rk)[:100], "later")
            continue
        ok = len(rd) == 1 and rd[0].a[1] is reader and root_at(rd[0].a[2], pre) and f.truth(mk_isv(rd[0], "Ok")) is True
        t = f.truth(mk_isv(payload(rd[0], "Ok"), "Some")) if ok else None
        ctx.ob("start", q, t is not None, "a first version does not look for an earlier root", "pre")
        if t:
            seen.add("pre")
            ctx.ob("start", q, m.op == "empty" and root_at(rk, pre), "with an earlier root it starts on %s" % show(rk)[:100], "old")
        elif t is False:
            seen.add("new")
            ok = root_at(rk, INT0) or root_at(rk, ver)
            ok = ok and m.op == "ins" and m.a[0].op == "empty" and m.a[1] is rk and is_null(m.a[2])
            ctx.ob("start", q, ok, "a new tree starts on %s with %s" % (show(rk)[:80], show(m)[:100]), "new")
    ctx.ob("start", q, seen == {"later", "pre", "new"}, "cases: %s" % sorted(seen), "cases")


def result(ctx):
    s = ctx.summ(INTO, None, "j09", fine=2)
    q = s.fn.qual
    (c,) = plain(s)
    z = f_(c, "frozen_cache")
    for o in s.outs:
        v = o.val
        ok = o.kind == "ret" and v.op == "tuple" and v.a[0][0] is f_(z, "root_hashes")
        b = v.a[0][1] if ok else None
        ok = ok and f_(b, "node_batch") is f_(z, "node_cache") and f_(b, "stale_node_index_batch") is f_(z, "stale_node_index_cache") and f_(b, "node_stats") is f_(z, "node_stats")
        ctx.ob("result", q, ok, "the result is %s" % show(v)[:160], "row")
    ctx.floor("result", q, len(s.outs), 1, "outcomes")


def check_deletes(ctx):
    ctx.rule("delete", "a node staged in this version is unstaged; any other is recorded as stale, once")
    deletes(ctx)
