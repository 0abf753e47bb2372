"""The versioned tree's bundled store, versions, derived operations and hash wrappers (J10 J11 J12 J21 J22)."""
from pmtlib import tyis, params, retty, isbytes
from lib import *
from interp import mk_idx

MOCK = "jmt::mock::MockTreeStore::"
RD = "jmt::<mock::MockTreeStore as reader::TreeReader>::"
VD = "jmt::<mock::MockTreeStore as db::VersionedDatabase>::"
TW = "jmt::<mock::MockTreeStore as writer::TreeWriter>::"


def plain(s):
    return [mk("arg", i, s.fn.locals[i + 1]["n"] or "a%d" % i) for i in range(s.fn.argc)]


def ok_val(o):
    """the success value of an outcome"""
    v = o.val
    if v.op == "adt" and v.a[0] == interp.RES:
        return v.a[3][0] if v.a[1] == "Ok" else None
    return payload(v, "Ok")


def data(selfv):
    return mk("field", selfv, "data")


def gtable(g, name):
    return mk("field", g, name)


def guards(o, selfv):
    return [e for e in o.events if e.kind == "lock" and e.args[0] is data(selfv)]


def locked(ctx, rid, s, selfv, write=None):
    """every outcome takes the store's lock, and writes only behind a write guard"""
    for o in s.outs:
        gs = guards(o, selfv)
        for e in o.events:
            if e.kind in ("mut", "store"):
                t = e.args[0]
                hit = [x for x in subterms(t) if x.op == "guard" and x.a[1] is data(selfv)]
                if hit and any(x.a[0] != "write" for x in hit):
                    ctx.ob(rid, s.fn.qual, False, "changes the store behind a read lock", "readlock")
        if write is False:
            ctx.ob(rid, s.fn.qual, not [x for x in gs if x.name == "write" and changed(o, x.res)], "a query changes the store", "query")


def changed(o, g):
    m = o.st.mem.get(mk("obj", g))
    return m is not None and m is not g


def one_guard(o, selfv):
    gs = guards(o, selfv)
    return gs[0].res if len(gs) == 1 else None


# ---------------------------------------------------------------- history of values
def hist_rows(f, m0, m1, failed, version, key, value):
    """one write of (version, key, value) to the histories m0, giving m1 or a failure; None or what is wrong"""
    H = mk("call", "get", m0, key)
    h = payload(H, "Some")
    n = lnv(h)
    last = mk_idx(h, sub(n, INT1))
    lver = mk("field", last, "0")
    pair = mk("tuple", (version, value))
    cases = [("no history", [(mk_isv(H, "Some"), False)]),
             ("empty history", [(mk_isv(H, "Some"), True), (mk_eq(n, INT0), True)])]
    some = [(mk_isv(H, "Some"), True), (mk_lt(INT0, n), True)]
    vn, ln_ = num(version), num(lver)
    cases += [("later write", some + [(mk_lt(lver, version), True)]),
              ("same version", some + [(mk_eq(version, lver), True)]),
              ("earlier version", some + [(mk_lt(version, lver), True)])]
    any_ = False
    for name, gs in cases:
        g = narrow(f, gs)
        if g is None:
            continue
        any_ = True
        if name == "earlier version":
            if not failed:
                return "a write for an earlier version is accepted"
            if m1 is not None and m1 is not m0:
                return "a refused write changes the history"
            continue
        if failed:
            return "refuses a write (%s)" % name
        if m1 is None:
            return "the write is lost (%s)" % name
        new = newval(m1, m0, key, g)
        if new is None:
            return "other histories change (%s): %s" % (name, show(m1)[:160])
        if name == "no history":
            want = [mk("arr", (pair,)), mk("push", EMPTY, pair)]
        elif name in ("empty history", "later write"):
            want = [mk("push", h, pair)]
            if name == "empty history":
                want.append(mk("arr", (pair,)))
        else:
            want = None
            x = new
            ok = same_at_last(g, x, h, n, version, value)
            if not ok:
                return "a second write for a version does not replace the first: %s" % show(new)[:200]
            continue
        if not any(same(g, new, w) for w in want):
            return "%s: the history becomes %s" % (name, show(new)[:200])
    return None if any_ else "unreachable"


def num(v):
    return v


def same_at_last(g, x, h, n, version, value):
    """x is h with the value of its last entry replaced"""
    if x.op == "upd" and x.a[1][0] == "i" and x.a[0] is h and same(g, x.a[1][1], sub(n, INT1)):
        return same(g, proj(x.a[2], "1"), value) and (same(g, proj(x.a[2], "0"), version) or same(g, proj(x.a[2], "0"), mk("field", mk_idx(h, sub(n, INT1)), "0")))
    if x.op == "push" and x.a[0].op == "popped" and x.a[0].a[0] is h:
        return same(g, proj(x.a[1], "1"), value) and same(g, proj(x.a[1], "0"), version)
    return False


def newval(m1, m0, key, g):
    if m1.op == "ins" and len(m1.a) == 3 and m1.a[0] is m0 and same(g, m1.a[1], key):
        return m1.a[2]
    return None


_L = Interp.__new__(Interp)


def lnv(v):
    return _L.length(v)


def guard_field(st, g, name):
    m = st.mem.get(mk("obj", g), g)
    return proj(m, name)


def loop_var(L, v):
    """the loop-carried variable of L that v (a value at the head) denotes, with its steps"""
    for lv, (init, steps) in L.vars.items():
        if lv is v:
            return init, steps
    return None


def var_at(L, root, name):
    for lv, (init, steps) in L.vars.items():
        if lv.op == "lv" and lv.a[1].op == "lk":
            b, st = lv.a[1].a
            if b is root and tuple(st) == (("f", name),):
                return lv, init, steps
    return None


def sources(L):
    for lv, (init, steps) in L.vars.items():
        if lv.op == "itv":
            yield init


def elem_is(t, seq, L, *path):
    for p in reversed(path):
        if t.op == "field" and t.a[1] == p:
            t = t.a[0]
        else:
            return False
    return t.op == "elem" and t.a[0] is seq and str(t.a[1]) == str(L.id)


def el(seq, L):
    return mk("elem", seq, L.id)


def verof(v):
    """the version term of a number, however wrapped"""
    out = [v, mk("adt", "db::Version", "Version", ("0",), (v,))]
    return out


def is_version(t, v):
    if t is v:
        return True
    if t.op == "adt" and t.a[0].endswith("Version") and len(t.a[3]) == 1:
        return t.a[3][0] is v
    if t.op == "call" and str(t.a[0]).startswith("from:"):
        return t.a[1] is v
    return False


def check_values(ctx):
    ctx.rule("read", "a read looks at the history of the whole key under the lock and returns the value of the last entry not above the version, absence when there is "
             "none; it fails never and changes nothing")
    ctx.rule("append", "a write for a version extends the key's history at its end, replaces the value when the version is the last one, and is refused when a later "
             "version exists; other histories stay as they are")
    ctx.rule("batch", "writing a batch writes every value of it, under its key and version, and stops only with the refusal")
    ctx.rule("entry", "the other reads and writes of the store's interface do the same")
    # --- reads
    for q in (RD + "get_value_option", VD + "get"):
        s = ctx.summ(q, None, "j10", fine=2, folds=True)
        selfv, mx, key = plain(s)
        locked(ctx, "read", s, selfv, write=False)
        n = 0
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("read", q, False, "a read can panic", "panic")
                continue
            n += 1
            p = read_case(s, o, selfv, mx, key)
            ctx.ob("read", q, p is None, p, "case:%s" % p)
        ctx.floor("read", q, n, 2, "outcomes")
    # --- single writes
    s = ctx.summ("jmt::mock::put_value", None, "j10", fine=2)
    m0, version, key, value = plain(s)
    seen = set()
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("append", s.fn.qual, False, "a write can panic", "panic")
            continue
        p = hist_rows(o.facts, m0, final(o, m0), is_err(o), version, key, value)
        ctx.ob("append", s.fn.qual, p is None, p, "case:%s" % p)
    ctx.floor("append", s.fn.qual, len(s.outs), 3, "outcomes")
    # --- batches
    for q in (TW + "write_node_batch", MOCK + "write_tree_update_batch", VD + "update_batch"):
        s = ctx.summ(q, None, "j10", fine=2)
        selfv, b = plain(s)
        nb = mk("field", b, "node_batch") if not q.startswith(TW) else b
        vals = mk("field", nb, "values")
        found = 0
        for L in s.I.loops.values():
            for lv, (init, steps) in L.vars.items():
                if lv.op != "lv" or lv.a[1].op != "lk" or lv.a[1].a[0].op != "obj" or lv.a[1].a[0].a[0].op != "guard" or tuple(lv.a[1].a[1]) != (("f", "value_history"),):
                    continue
                if all(st is lv for st, _ in steps):
                    continue
                found += 1
                ctx.ob("batch", q, init is mk("field", lv.a[1].a[0].a[0], "value_history"), "values are written to %s" % show(init)[:80], "init")
                ctx.ob("batch", q, any(seq_covers(x, vals, s.I) for x in sources(L)), "the loop that writes values does not run over the batch's values", "src")
                e = el(vals, L)
                v, k, w = (mk("field", mk("field", e, "0"), "0"), mk("field", mk("field", e, "0"), "1"), mk("field", e, "1"))
                for st, f in steps:
                    p = hist_any(f, lv, st, False, v, k, w)
                    ctx.ob("batch", q, p is None, p, "step:%s" % p)
                for o in s.outs:
                    if o.kind != "ret" or not is_err(o):
                        continue
                    g = o.facts
                    if any(kk.op == "more" and vv and str(kk.a[1]) == str(L.id) for kk, vv in g.d.items()):
                        p = hist_any(g, lv, None, True, v, k, w)
                        ctx.ob("batch", q, p is None, p, "err:%s" % p)
                for o in s.oks:
                    if o.kind == "ret" and not is_err(o):
                        ctx.ob("batch", q, exhausted(s.I, o.facts, L.id, vals), "success is reported before every value is written", "exhaust")
        ctx.floor("batch", q, found, 1, "loops writing values")
        locked(ctx, "batch", s, selfv)
    # --- a leaf put directly
    if ctx.has(MOCK + "put_leaf"):
        s = ctx.summ(MOCK + "put_leaf", None, "j10", fine=2)
        selfv, nk, leaf, value = plain(s)
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("entry", s.fn.qual, False, "can panic", "panic")
                continue
            g = one_guard(o, selfv)
            ctx.ob("entry", s.fn.qual, g is not None, "does not take the lock exactly once", "lock")
            if g is None:
                continue
            m0 = mk("field", g, "value_history")
            m1 = guard_field(o.st, g, "value_history")
            if o.facts.truth(mk_isv(mk("call", "get", mk("field", g, "nodes"), nk), "Some")) is True:
                ctx.ob("entry", s.fn.qual, is_err(o) and m1 is m0, "a refused leaf changes the histories", "refuse")
                continue
            p = hist_any(o.facts, m0, m1, is_err(o), mk("field", nk, "version"), mk("field", leaf, "key_hash"), Some(value))
            ctx.ob("entry", s.fn.qual, p is None, p, "case:%s" % p)


def hist_any(f, m0, m1, failed, v, k, w):
    p = None
    for x in verof(v):
        p = hist_rows(f, m0, m1, failed, x, k, w)
        if p is None:
            return None
    return p


def read_case(s, o, selfv, mx, key):
    f = o.facts
    g = one_guard(o, selfv)
    if g is None:
        return "does not take the lock exactly once"
    if is_err(o):
        return "a read fails: %s" % show(o.val)[:100]
    v = ok_val(o)
    H = mk("call", "get", mk("field", g, "value_history"), key)
    h = payload(H, "Some")
    if f.truth(mk_isv(H, "Some")) is False:
        return None if v is NONE or f.truth(mk_isv(v, "None")) is True else "returns %s for a key without history" % show(v)[:100]
    if f.truth(mk_isv(H, "Some")) is not True:
        return "does not look at the key's own history: returns %s" % show(v)[:120]
    n = lnv(h)
    for lid, L in s.I.loops.items():
        src = [unsieved(x) for x in sources(L)]
        sieved = s.I.rejects.get(str(L.id), ())
        rev = any(x.op == "it" and x.a[0] == "rev" and seq_covers(x, h, s.I) for x in src)
        fwd = any(x is h for x in src)
        pool = [o.val] + [k for b in L.backs for k in b.facts.d]
        ind = {x for t in pool for x in subterms(t) if x.op == "ind" and str(x.a[0]) == str(L.id) and x.a[1] is INT0}
        down = not src and any(mk_idx(h, sub(sub(n, INT1), i)) in subterms(t) for i in ind for t in pool)
        if not rev and not fwd and not down:
            continue
        if rev or down:
            if sieved and not all(any(entails(fs, mk_lt(mx, mk("field", mk("elem", x, L.id), "0"))) for x in src) for t, fs in sieved):
                return "passes over an entry that is not above the version"
            cur = [mk_idx(h, sub(sub(n, INT1), i)) for i in ind] + [mk("elem", x, L.id) for x in src]
            for b in L.backs:
                if not any(b.facts.truth(mk_le(mk("field", c, "0"), mx)) is False or entails(b.facts, mk_lt(mx, mk("field", c, "0"))) for c in cur):
                    return "passes over an entry that is not above the version"
            if any(k.op == "more" and t is False and str(k.a[1]) == str(lid) for k, t in f.d.items()) or down and any(entails(f, mk_le(n, i)) for i in ind):
                return None if v is NONE else "returns %s when every entry is above the version" % show(v)[:100]
            for c in cur:
                if same(f, v, mk("field", c, "1")):
                    return None if entails(f, mk_le(mk("field", c, "0"), mx)) else "returns an entry above the version"
            return "returns %s" % show(v)[:160]
        # forward scan that keeps the last suitable entry
        for lv, (init, steps) in L.vars.items():
            if lv.op != "lv":
                continue
            c = el(h, L)
            ver, val = mk("field", c, "0"), mk("field", c, "1")
            whole = False
            opt = init is NONE
            if not opt:
                continue
            good = True
            for st, fs in steps:
                if st is lv:
                    good = good and (entails(fs, mk_lt(mx, ver)))
                elif st is val or st.op == "adt" and st.a[1] == "Some" and st.a[3][0] in (val, c):
                    whole = st is not val and st.a[3][0] is c
                    good = good and entails(fs, mk_le(ver, mx))
                else:
                    good = False
            # entries are in order, so that one above the version ends the search
            over = exhausted(s.I, f, L.id, h, True) or any(kk.op == "more" and t and str(kk.a[1]) == str(L.id) for kk, t in f.d.items()) and entails(f, mk_lt(mx, ver))
            for t, fs in sieved:
                good = good and entails(fs, mk_lt(mx, ver))
            got = mk("field", payload(lv, "Some"), "1") if whole else lv
            if good and over and (v is got or v is payload(lv, "Some") and not whole or f.truth(mk_isv(lv, "None")) is True and v is NONE):
                return None
        return "the scan of the history is not recognised: returns %s" % show(v)[:120]
    return "does not scan the key's history: returns %s" % show(v)[:120]


# ---------------------------------------------------------------- J11
def check_store(ctx):
    ctx.rule("nodes", "writing a batch stores every node of it under its key, and unless overwriting is enabled a key that is taken stops the write with a panic or an error")
    ctx.rule("markers", "every stale marker of a batch is recorded; a marker recorded before is an error")
    ctx.rule("prune", "pruning removes exactly the nodes named by markers at or below the version, and these markers, and nothing else")
    ctx.rule("query", "node lookup, counting, listing and the rightmost leaf describe the stored nodes")
    ctx.rule("leaf", "putting a leaf directly is refused when its key is taken and otherwise stores it there")
    ctx.rule("order", "markers are ordered by version first, so that those at or below a version come before the others")
    nodes_rows(ctx)
    marker_rows(ctx)
    prune_rows(ctx)
    query_rows(ctx)


def nodes_rows(ctx):
    for q in (TW + "write_node_batch", MOCK + "write_tree_update_batch", VD + "update_batch"):
        s = ctx.summ(q, None, "j10", fine=2)
        selfv, b = plain(s)
        ov = mk("field", selfv, "allow_overwrite")
        nb = mk("field", b, "node_batch") if not q.startswith(TW) else b
        nodes = mk("field", nb, "nodes")
        found = 0
        for L in s.I.loops.values():
            for lv, (init, steps) in L.vars.items():
                if lv.op != "lv" or lv.a[1].op != "lk" or lv.a[1].a[0].op != "obj" or lv.a[1].a[0].a[0].op != "guard" or tuple(lv.a[1].a[1]) != (("f", "nodes"),):
                    continue
                if all(st is lv for st, _ in steps):
                    continue
                found += 1
                ctx.ob("nodes", q, init is mk("field", lv.a[1].a[0].a[0], "nodes"), "nodes are written to %s" % show(init)[:80], "init")
                ctx.ob("nodes", q, any(seq_covers(x, nodes, s.I) for x in sources(L)), "the loop that writes nodes does not run over the batch's nodes", "src")
                e = el(nodes, L)
                k, v = mk("field", e, "0"), mk("field", e, "1")
                old = mk("call", "get", lv, k)
                for st, f in steps:
                    ok = st.op == "ins" and len(st.a) == 3 and st.a[0] is lv and st.a[1] is k and st.a[2] is v
                    ctx.ob("nodes", q, ok, "an element of the batch gives %s" % show(st)[:160], "step")
                    quiet = f.truth(ov) is not True and f.truth(mk_isv(old, "None")) is not True and f.truth(mk_eq(old, Some(v))) is not True
                    ctx.ob("nodes", q, not quiet, "a stored node is replaced although overwriting is not enabled", "replace")
                for o in s.outs:
                    here = any(kk.op == "more" and vv and str(kk.a[1]) == str(L.id) for kk, vv in o.facts.d.items())
                    if o.kind == "panic" or here:
                        ok = here and o.facts.truth(ov) is False and o.facts.truth(mk_isv(old, "Some")) is True
                        ctx.ob("nodes", q, ok, "stops although the key is free or overwriting is enabled", "stop")
                    elif not is_err(o):
                        ctx.ob("nodes", q, exhausted(s.I, o.facts, L.id, nodes), "success is reported before every node is written", "exhaust")
        ctx.floor("nodes", q, found, 1, "loops writing nodes")
        locked(ctx, "nodes", s, selfv)


def marker_rows(ctx):
    for q in (MOCK + "write_tree_update_batch", VD + "update_batch"):
        s = ctx.summ(q, None, "j10", fine=2)
        selfv, b = plain(s)
        src = mk("field", b, "stale_node_index_batch")
        n = 0
        for L in s.I.loops.values():
            if not any(seq_covers(x, src, s.I) for x in sources(L)):
                continue
            n += 1
            e = el(src, L)
            for bk in L.backs:
                es = [x for x in evs_since(bk, L) if x.kind == "mut" and x.name == "insert" and "stale_nodes" in str(x.args[0])]
                ok = len(es) == 1 and es[0].args[1] is e
                ctx.ob("markers", q, ok, "a marker is not recorded: %s" % [repr(x)[:80] for x in es], "step")
                if ok:
                    ctx.ob("markers", q, bk.facts.truth(es[0].res) is True, "a marker that was there already is not reported", "dup")
            for o in s.outs:
                here = any(kk.op == "more" and vv and str(kk.a[1]) == str(L.id) for kk, vv in o.facts.d.items())
                if here:
                    ok = is_err(o) and any(x.kind == "mut" and x.name == "insert" and "stale_nodes" in str(x.args[0]) and o.facts.truth(x.res) is False for x in o.events)
                    ctx.ob("markers", q, ok, "stops at a marker that was not there", "stop")
                elif o.kind == "ret" and not is_err(o):
                    ctx.ob("markers", q, exhausted(s.I, o.facts, L.id, src), "success is reported before every marker is recorded", "exhaust")
        ctx.floor("markers", q, n, 1, "loops recording markers")


def evs_since(b, L):
    r = []
    h = L.head_ev
    e = b.ev
    while e is not None and e is not h:
        r.append(e)
        e = e.prev
    return list(reversed(r))


def prune_rows(ctx):
    q = MOCK + "purge_stale_nodes"
    s = ctx.summ(q, None, "j11", fine=True)
    selfv, ver = plain(s)
    d = ctx.db("jmt")
    adt = next((a for a in d.adts.values() if a.get("p") == "writer::StaleNodeIndex"), None)
    if adt is None:
        raise Missing("StaleNodeIndex")
    names = [f["n"] for f in adt["v"][0]["f"]]
    derived = any(f.derived and f.impl_trait == "core::cmp::Ord" and f.name == "cmp" and tyis(f.impl_self_ty, "writer::StaleNodeIndex") for f in d.by_path.values())
    prefix_ok = derived and names[:1] == ["stale_since_version"]
    takes = any(k.op == "it" and k.a[0] in ("take_while", "map_while") for L in s.I.loops.values() for x in sources(L) for k in subterms(x))
    gs = {e.res for o in s.outs for e in guards(o, selfv)}
    ctx.ob("prune", q, len(gs) == 1 and all(g.a[0] == "write" for g in gs), "takes the lock %d times" % len(gs), "lock")
    for g in gs:
        stale = mk("field", g, "stale_nodes")
        cols = {}
        for lid, L in s.I.loops.items():
            if any(unwrap(x) is stale for x in sources(L)):
                e = el(stale, L)
                since = mk("field", e, "stale_since_version")
                for lv, (init, steps) in L.vars.items():
                    if lv.op != "lv" or lv.a[1].op != "lk" or lv.a[1].a[0] is mk("obj", g):
                        continue
                    good = bool(steps)
                    kept = False
                    for st, f in steps:
                        if st.op in ("push", "ins") and st.a[0] is lv and st.a[-1] is e:
                            kept = True
                            ctx.ob("prune", q, entails(f, mk_le(since, ver)), "a marker above the version is taken", "above")
                        elif st is lv:
                            ctx.ob("prune", q, entails(f, mk_lt(ver, since)), "a marker at or below the version is passed over", "below")
                        else:
                            good = False
                    if good and kept and init.op in ("empty",):
                        cols[lv] = L
                # rejected by a filter
                for t, f in s.I.rejects.get(str(L.id), ()):
                    ctx.ob("prune", q, entails(f, mk_lt(ver, since)), "a marker at or below the version is filtered out", "below")
        found = 0
        for lid, L in s.I.loops.items():
            nv = var_at(L, mk("obj", g), "nodes")
            mv = var_at(L, mk("obj", g), "stale_nodes")
            if nv is None and mv is None:
                continue
            found += 1
            src = [unwrap(x) for x in sources(L)]
            lst = [x for x in src if x in cols or x is stale or picked(x, stale, ver)]
            ctx.ob("prune", q, bool(lst) and nv is not None and mv is not None, "nodes and markers are not removed together for the collected markers: %s" % [show(x)[:60] for x in src], "src")
            if not lst or nv is None or mv is None:
                continue
            x = lst[0]
            e = el(stale if x.op == "coll" else x, L)
            ctx.ob("prune", q, nv[1] is mk("field", g, "nodes") and mv[1] is stale, "starts from a changed table", "init")
            for (st, f), (st2, _) in zip(nv[2], mv[2]):
                ok = st.op == "rem" and st.a[0] is nv[0] and st.a[1] is mk("field", e, "node_key")
                ctx.ob("prune", q, ok, "for a marker, the nodes become %s" % show(st)[:120], "node")
                ok = st2.op == "rem" and st2.a[0] is mv[0] and st2.a[1] is e
                ctx.ob("prune", q, ok, "for a marker, the markers become %s" % show(st2)[:120], "marker")
                if ok and st.op == "rem":
                    ctx.ob("prune", q, f.truth(mk_isv(mk("call", "get", nv[0], st.a[1]), "Some")) is True, "a marker of a missing node is not reported", "absent")
        ctx.floor("prune", q, found, 1, "loops removing nodes")
        for o in s.outs:
            f = o.facts
            if o.kind == "panic":
                ctx.ob("prune", q, False, "can panic", "panic")
                continue
            if is_err(o):
                ok = any(k.op == "isv" and v and k.a[1] == ("None",) and k.a[0].op == "call" and k.a[0].a[0] == "get" for k, v in dom_none(f))
                ctx.ob("prune", q, ok, "fails although the node of every marker is there", "err")
                continue
            nodes1, stale1 = guard_field(o.st, g, "nodes"), guard_field(o.st, g, "stale_nodes")
            rem = [L for L in s.I.loops.values() if any(y[0] is nodes1 for y in [var_at(L, mk("obj", g), "nodes")] if y)]
            ok = len(rem) == 1 and any(y[0] is stale1 for y in [var_at(rem[0], mk("obj", g), "stale_nodes")] if y)
            ctx.ob("prune", q, ok, "ends with nodes %s" % show(nodes1)[:120], "end")
            if not ok:
                continue
            L = rem[0]
            x = next((unwrap(y) for y in sources(L)), None)
            ctx.ob("prune", q, x is not None and exhausted(s.I, f, L.id, x), "ends before every collected marker was handled", "exhaust")
            # the collection saw every marker at or below the version
            for lid, C in s.I.loops.items():
                if C not in cols.values():
                    continue
                full = any(k.op == "more" and v is False and str(k.a[1]) == str(lid) for k, v in f.d.items())
                stop = any(entails(f, mk_lt(ver, mk("field", el(stale, C), "stale_since_version"))) for _ in (0,))
                ctx.ob("prune", q, full or stop and prefix_ok, "the collection of markers may stop early", "early")
            if x is stale:
                # everything is removed only when every marker was seen to be at or below
                ok = any(C is not L and C in cols.values() and any(k.op == "more" and v is False and str(k.a[1]) == str(lid) for k, v in f.d.items())
                         for lid, C in s.I.loops.items())
                ctx.ob("prune", q, ok, "removes markers without looking at their version", "all")
    ctx.ob("order", q, prefix_ok or not takes, "markers are not ordered by version first, but the collection stops at the first one above it", "order")


def picked(x, stale, ver):
    """the markers at or below the version, collected by a condition"""
    b = seq_cases(x)
    if b is None or b[0] is not stale or len(b[1]) != 1:
        return False
    conds, body = b[1][0]
    e = mk("elem", stale, "\u2022%d" % x.a[0])
    return body is e and conds == [(mk_le(mk("field", e, "stale_since_version"), ver), 1)]


def seq_cases(v):
    """(source, [([(condition, truth)], element)]) of a collected sequence"""
    if v.op != "coll":
        return None
    return v.a[1], [([(x.a[0][0], x.a[0][1].a[0]) for x in c.a[0][0].a[0]], c.a[0][1]) for c in v.a[2]]


def dom_none(f):
    for t, dm in f.dom.items():
        if set(dm) == {"None"}:
            yield mk("isv", t, ("None",)), True


def unwrap(x):
    while x.op == "it" and x.a[0] in ("take_while", "cloned", "copied", "filter", "map_while", "inspect"):
        x = x.a[1]
    return x


def query_rows(ctx):
    for q, want in ((RD + "get_node_option", lambda g, a: interp.Ok(mk("call", "get", mk("field", g, "nodes"), a[1]))),
                    (MOCK + "num_nodes", lambda g, a: mk("call", "len", mk("field", g, "nodes"))),
                    (VD + "nodes", lambda g, a: mk("field", g, "nodes")),
                    (VD + "value_history", lambda g, a: mk("field", g, "value_history"))):
        s = ctx.summ(q, None, "j11", fine=True)
        a = plain(s)
        locked(ctx, "query", s, a[0], write=False)
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("query", q, False, "can panic", "panic")
                continue
            g = one_guard(o, a[0])
            w = want(g, a) if g is not None else None
            ok = w is not None and (same(o.facts, o.val, w))
            ctx.ob("query", q, ok, "returns %s" % show(o.val)[:160], "value")
    # a new store is empty, and overwrites only when it is told to
    for q in (MOCK + "new", "jmt::<mock::MockTreeStore as core::default::Default>::default"):
        if not any(f.qual == q for f in ctx.db("jmt").fns.values()):
            continue
        s = ctx.summ(q, None, "j11", fine=True)
        mode = (plain(s) + [INT0])[0] if not isinstance(plain(s), tuple) else (plain(s) + (INT0,))[0]
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("query", q, False, "can panic", "panic")
                continue
            dta = proj(o.val, "data")
            inner = dta.a[1] if dta.op == "call" and dta.a[0] == "lock_new" else None
            ok = inner is not None and all(proj(inner, x).op == "empty" for x in ("nodes", "stale_nodes", "value_history"))
            ctx.ob("query", q, ok and proj(o.val, "allow_overwrite") is mode, "a new store is %s" % show(o.val)[:160], "new")
    # rightmost leaf
    q = RD + "get_rightmost_leaf"
    s = ctx.summ(q, None, "j11", fine=True, folds=True)
    a = plain(s)
    locked(ctx, "query", s, a[0], write=False)
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("query", q, False, "can panic", "panic")
            continue
        if is_err(o):
            ctx.ob("query", q, False, "fails", "err")
            continue
        g = one_guard(o, a[0])
        if g is None:
            ctx.ob("query", q, False, "takes the lock other than once", "lock")
            continue
        nodes = mk("field", g, "nodes")
        v = ok_val(o)
        p = "the scan of the nodes is not recognised: returns %s" % show(v)[:120]
        for lid, L in s.I.loops.items():
            r = loop_var(L, v)
            if r is None or not exhausted(s.I, o.facts, lid, nodes, True):
                continue
            n += 1
            p = argmax(L, v, r, nodes)
            nd = mk("field", el(nodes, L), "1")
            if any(f.truth(mk_isv(nd, "Leaf")) is not False for t, f in s.I.rejects.get(str(lid), ())):
                p = "a leaf is left out of the search"
        ctx.ob("query", q, p is None, p, "scan:%s" % p)
    ctx.floor("query", q, n, 1, "scans")
    # a leaf put directly
    if ctx.has(MOCK + "put_leaf"):
        q = MOCK + "put_leaf"
        s = ctx.summ(q, None, "j10", fine=2)
        selfv, nk, leaf, value = plain(s)
        locked(ctx, "leaf", s, selfv)
        for o in s.outs:
            if o.kind == "panic":
                continue
            g = one_guard(o, selfv)
            if g is None:
                ctx.ob("leaf", q, False, "takes the lock other than once", "lock")
                continue
            n0 = mk("field", g, "nodes")
            n1 = guard_field(o.st, g, "nodes")
            old = mk("call", "get", n0, nk)
            t = o.facts.truth(mk_isv(old, "Some"))
            if t is True:
                ctx.ob("leaf", q, is_err(o) and n1 is n0, "a taken key is not refused", "taken")
            else:
                ok = t is False and n1.op == "ins" and n1.a[0] is n0 and n1.a[1] is nk and n1.a[2].op == "adt" and n1.a[2].a[1] == "Leaf" and n1.a[2].a[3][0] is leaf
                ctx.ob("leaf", q, ok, "the nodes become %s" % show(n1)[:120], "store")


def argmax(L, lv, r, nodes):
    init, steps = r
    if init is not NONE:
        return "starts from %s" % show(init)[:60]
    e = el(nodes, L)
    nd = mk("field", e, "1")
    leaf = payload(nd, "Leaf")
    key = mk("field", leaf, "key_hash")
    best = mk("field", mk("field", payload(lv, "Some"), "1"), "key_hash")
    for st, f in steps:
        isleaf = f.truth(mk_isv(nd, "Leaf"))
        if st is lv:
            if isleaf is False or f.truth(mk_isv(lv, "Some")) is True and (entails(f, mk_le(key, best)) or f.truth(mk_lt(best, key)) is False or cmp_is(f, key, best, ("Less", "Equal"))):
                continue
            return "a leaf is passed over although it may be further right"
        if st.op == "adt" and st.a[1] == "Some" and isleaf is True:
            t = st.a[3][0]
            if not (proj(t, "0") is mk("field", e, "0") and proj(t, "1") is leaf):
                return "keeps %s" % show(t)[:100]
            if f.truth(mk_isv(lv, "None")) is True or entails(f, mk_le(best, key)) or f.truth(mk_lt(key, best)) is False or cmp_is(f, key, best, ("Greater", "Equal")):
                continue
            return "replaces the leaf kept by one that may be further left"
        return "a node gives %s" % show(st)[:100]
    return None


def cmp_is(f, a, b, allowed):
    inv = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}
    for x, y, al in ((a, b, set(allowed)), (b, a, {inv[z] for z in allowed})):
        c = mk("call", "cmp", x, y)
        dm = f.dom.get(c)
        if dm is not None and set(dm) <= al:
            return True
    return False


# ---------------------------------------------------------------- J12
HASHERS = ("KeyHash::with", "ValueHash::with")
DIG = "digest::digest::Digest::"


def calls_of(o):
    if isinstance(o, dict):
        if isinstance(o.get("p"), str) and "ga" in o:
            yield o
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from calls_of(v)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                yield from calls_of(v)


def check_hashers(ctx):
    ctx.rule("wrap", "a key hash and a value hash are the chosen function's digest of exactly the bytes given")
    ctx.rule("oneshot", "the one-shot digest is a new state, updated once with all of the data, and finalised; the bridge from digest implementations passes each step through")
    ctx.rule("chooser", "wherever a key or value hash is taken, the hash function is the type parameter of the caller, never a fixed function or another one")
    ctx.rule("fixed", "nodes are hashed with one fixed function: every digest taken with a concrete function uses that one, in the node types' hash methods")
    d = ctx.db("jmt")
    for q in ("jmt::KeyHash::with", "jmt::ValueHash::with"):
        s = ctx.summ(q, lambda g: g.path == "SimpleHasher::hash", "j12", fine=True)
        a = plain(s)
        for o in s.outs:
            v = o.val
            if o.kind == "panic":
                ctx.ob("wrap", q, False, "can panic", "panic")
                continue
            x = v.a[3][0] if v.op == "adt" and len(v.a[3]) == 1 else v
            ok = (x.op == "H" and len(x.a) == 2 or x.op == "call" and x.a[0] == "SimpleHasher::hash") and hash_arg(x) is a[0] and hash_fn(x, s.fn)
            ctx.ob("wrap", q, ok, "gives %s" % show(v)[:160], "value")
        ctx.floor("wrap", q, len(s.rets), 1, "outcomes")
    q = "jmt::SimpleHasher::hash"
    if ctx.has(q):
        s = ctx.summ(q, None, "j12", fine=True)
        a = plain(s)
        for o in s.outs:
            es = [e for e in o.events if e.kind == "call" and e.name.startswith("SimpleHasher::")]
            ok = o.kind == "ret" and (o.val.op == "H" and len(o.val.a) == 2 and o.val.a[-1] is a[0])
            ctx.ob("oneshot", q, ok, "gives %s" % (show(o.val)[:160] if o.val is not None else o.kind), "value")
    n = 0
    for f in d.by_path.values():
        if f.crate == "jmt" and f.impl_trait == "SimpleHasher" and f.kind == "fn":
            n += 1
            names = [x["p"].split("::")[-1] for b in f.blocks for x in calls_of(b) if "Digest" in x["p"]]
            if f.name == "hash":
                s = ctx.summ(f, None, "j12", fine=True)
                ok = all(o.kind == "ret" and o.val.op == "H" and o.val.a[-1] is plain(s)[-1] for o in s.outs)
            else:
                s = ctx.summ(f, lambda g: True, "j12b", fine=True)
                a = plain(s)
                ok = True
                for o in s.outs:
                    es = [e for e in o.events if e.kind == "call"]
                    v = o.val
                    if o.kind != "ret":
                        ok = False
                    elif f.name == "new":
                        ok = ok and bridge_new(v)
                    elif f.name == "update":
                        ok = ok and bridge_upd(final(o, a[0]), a[0], a[1])
                    elif f.name == "finalize":
                        ok = ok and bridge_fin(v, a[0])
            ctx.ob("oneshot", f.qual, ok, "the bridge to the digest implementation does not pass this step through: %s" % [show(o.val)[:80] for o in s.outs if o.val is not None], "bridge")
    ctx.floor("oneshot", "SimpleHasher", n, 3, "bridge functions")
    nsites = nfix = 0
    fixed = set()
    for f in d.by_path.values():
        if f.crate != "jmt" or not getattr(f, "blocks", None):
            continue
        for b in f.blocks:
            for x in calls_of(b):
                p = x["p"]
                if p in HASHERS or p.startswith("SimpleHasher::") and p.split("::")[-1] in ("hash", "new", "update", "finalize"):
                    g = x["ga"][0] if x["ga"] else {}
                    nsites += 1
                    par = g.get("k") in ("param", "alias", "proj") or g.get("s") == "Self"
                    ok = par or f.path.startswith("KeyHash::sha256") and isinstance(g, dict)
                    if not par and p.startswith("SimpleHasher::") and node_hash_fn(f):
                        ok = True
                        fixed.add(tystr(g))
                    ctx.ob("chooser", f.qual, ok, "%s is taken with %s" % (p, tystr(g)[:80]), p)
                elif p.startswith(DIG) or "as digest::digest::Digest>" in p:
                    g = x["ga"][0] if x["ga"] else {}
                    if g.get("k") in ("param",):
                        ctx.ob("fixed", f.qual, f.impl_trait == "SimpleHasher", "a digest with the function %s outside the bridge" % tystr(g)[:60], "param")
                        continue
                    nfix += 1
                    fixed.add(tystr(g))
                    ctx.ob("fixed", f.qual, in_node_hash(ctx, f), "a digest with a fixed function outside the node types", "where")
    ctx.ob("fixed", "crate", len(fixed) == 1, "node hashes use different functions: %s" % sorted(fixed), "one")
    ctx.floor("chooser", "crate", nsites, 6, "call sites")
    ctx.floor("fixed", "crate", nfix, 4, "digest calls")


def tystr(g):
    if not isinstance(g, dict):
        return str(g)
    if g.get("k") == "adt":
        return g["p"] + "<" + ",".join(tystr(x) for x in g.get("a", ())) + ">"
    return str(g.get("s") or g.get("p") or g.get("k"))


def node_hash_fn(f):
    return tyis(f.impl_self_ty, "types::proof::SparseMerkleLeafNode") or tyis(f.impl_self_ty, "types::proof::SparseMerkleInternalNode") if f.impl_self_ty else False


def in_node_hash(ctx, f):
    """f computes the hash of one of the two node types (or is called by such a method only)"""
    if node_hash_fn(f):
        return True
    d = ctx.db("jmt")
    users = [g for g in d.by_path.values() if g.crate == "jmt" and getattr(g, "blocks", None) and g is not f
             and any(x["p"] == f.path for b in g.blocks for x in calls_of(b))]
    return bool(users) and all(node_hash_fn(g) for g in users)


def hash_arg(x):
    return x.a[-1]


def hash_fn(x, fn):
    t = str(x.a[0]) if x.op == "H" else str(x.a[0])
    return x.op != "H" or t == "H" or not t.startswith("digest::")


def bridge_new(v):
    return v.op == "hst" or v.op == "call" and v.a[0].endswith("Digest::new")


def bridge_upd(v, st, data):
    if v.op == "hupd":
        return v.a[-1] is data and v.a[-2] is st
    return v.op == "eff" and v.a[0].endswith("Digest::update") and v.a[1] == 0 and v.a[2] is st and v.a[3] is data


def bridge_fin(v, st):
    while v.op == "call" and (str(v.a[0]).startswith("from:") or v.a[0].endswith("::into")) and len(v.a) == 2:
        v = v.a[1]
    return v.op == "call" and v.a[0] == "hfin" and v.a[-1] is st or v.op == "call" and v.a[0].endswith("Digest::finalize") and v.a[1] is st


# ---------------------------------------------------------------- J21
VER = "db::Version"


def check_version(ctx):
    ctx.rule("shape", "a version is one unsigned 64-bit integer")
    ctx.rule("convert", "conversions give the wrapped integer itself, or its eight big-endian bytes, and back")
    ctx.rule("order", "versions compare as the wrapped integers")
    d = ctx.db("jmt")
    adt = next((a for a in d.adts.values() if a.get("p") == VER), None)
    if adt is None:
        raise Missing(VER)
    fl = adt["v"][0]["f"]
    ctx.ob("shape", VER, len(fl) == 1 and fl[0]["ty"].get("s") == "u64", "fields are %s" % [x["n"] for x in fl], "shape")
    fname = fl[0]["n"]
    isv = lambda t: tyis(t, VER)
    isu = lambda t: isinstance(t, dict) and (t.get("s") == "u64" or t.get("k") == "ref" and isu(t["t"]))
    isb = isbytes
    inner = lambda v: proj(v, fname)
    kinds = set()
    for f in sorted((x for x in d.by_path.values() if x.crate == "jmt" and x.kind == "fn"), key=lambda x: x.qual):
        mine = f.impl_self_ty is not None and isv(f.impl_self_ty)
        ps = params(f)
        rt = retty(f)
        tr = f.impl_trait or ""
        if tr == "core::cmp::Ord" and mine and f.name in ("cmp", "max", "min", "clamp") or mine and tr in ("core::cmp::PartialOrd", "core::cmp::PartialEq") \
                and f.name in ("eq", "ne", "partial_cmp", "lt", "le", "gt", "ge"):
            kinds.add(f.name)
            s = ctx.summ(f, None, "j21", fine=True)
            a = plain(s)
            x, y = mk("field", a[0], fname), mk("field", a[1], fname) if len(a) > 1 else None
            for o in s.outs:
                ok = o.kind == "ret" and ordered(o, f.name, x, y, a)
                ctx.ob("order", f.qual, ok, "gives %s" % (show(o.val)[:120] if o.val is not None else o.kind), f.name)
            continue
        if f.name in ("default",) and tr == "core::default::Default" and mine:
            kinds.add("default")
            s = ctx.summ(f, None, "j21", fine=True)
            for o in s.outs:
                ctx.ob("convert", f.qual, o.kind == "ret" and inner(o.val) in (INT0, mk("call", "default:u64")), "the default is %s" % show(o.val)[:80], "default")
            continue
        if not tr.startswith("core::convert::From") or len(ps) != 1:
            continue
        src, dst = ps[0][2], rt
        if isv(src) and isu(dst):
            k, want = "to_u64", lambda o, a: o.val is mk("field", a, fname)
        elif isu(src) and isv(dst):
            k, want = "from_u64", lambda o, a: inner(o.val) is a
        elif isv(src) and isb(dst):
            k, want = "to_bytes", lambda o, a: o.val is mk("call", "to_be_bytes", mk("field", a, fname))
        elif isb(src) and isv(dst):
            k, want = "from_bytes", from_bytes
        else:
            continue
        kinds.add(k)
        s = ctx.summ(f, None, "j21", fine=True)
        a = plain(s)[0]
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("convert", f.qual, k == "from_bytes" and wrong_len(o, a), "can panic", "panic")
                continue
            ctx.ob("convert", f.qual, want(o, a), "gives %s" % show(o.val)[:120], k)
    for k in ("to_u64", "from_u64", "to_bytes", "from_bytes", "default", "cmp", "eq", "partial_cmp"):
        ctx.ob("convert", VER, k in kinds, "conversion %s is gone" % k, "missing:" + k)


def wrong_len(o, a):
    f = o.facts
    for k, v in f.d.items():
        pass
    c = mk("call", "try_into", a)
    return f.truth(mk_isv(c, "Err")) is True or entails(f, mk_not(mk_eq(lnv(a), Int(8))))


def from_bytes(o, a):
    f = o.facts
    if wrong_len(o, a):
        return True
    v = proj(o.val, "0")
    if v.op != "call" or v.a[0] != "from_be_bytes":
        return False
    x = v.a[1]
    return x is payload(mk("call", "try_into", a), "Ok") or x is a


def ordered(o, name, x, y, a):
    v = o.val
    c = (mk("call", "cmp", x, y), mk("call", "cmp", a[0], a[1] if len(a) > 1 else a[0]))
    if name == "cmp":
        return v is c[0]
    if name == "partial_cmp":
        return v.op == "adt" and v.a[1] == "Some" and v.a[3][0] in c
    f = o.facts
    want = {"eq": mk_eq(x, y), "ne": mk_not(mk_eq(x, y)), "lt": mk_lt(x, y), "le": mk_le(x, y), "gt": mk_lt(y, x), "ge": mk_le(y, x)}.get(name)
    if want is not None:
        return v is want or v in (INT0, INT1) and f.truth(want) is (v is INT1)
    return True


# ---------------------------------------------------------------- J22
TRD = "reader::TreeReader::"
VDT = "db::VersionedDatabase::"
VT = "jmt::<tree::JellyfishMerkleTree<R, H> as trie::VersionedTrie<R, H>>::"


def check_derived(ctx):
    ctx.rule("member", "membership is that the read of the same key at the same version finds a value; an error of the read is returned")
    ctx.rule("update", "a single update is one batch update with the same argument, whose result is returned")
    ctx.rule("empty", "emptiness is that the number of entries is zero; the number of entries counts the keys whose latest history entry holds a value")
    ctx.rule("latest", "the latest version is the greatest one in any history")
    ctx.rule("trait", "the tree's trait operations answer as the concrete operation for the same key and version")
    q = "jmt::trie::VersionedTrie::contains"
    for fn in defs(ctx, "trie::VersionedTrie", "contains"):
        s = ctx.summ(fn, lambda g: g.path == "trie::VersionedTrie::get" or g.impl_trait == "trie::VersionedTrie" and g.name == "get", "j22", fine=True)
        a = plain(s)
        r = None
        for o in s.outs:
            es = [e for e in o.events if e.kind == "call" and e.name.split("::")[-1] == "get"]
            ok = o.kind == "ret" and len(es) == 1 and list(es[0].res.a[1:]) == a
            if ok:
                ok = member(o, es[0].res)
            ctx.ob("member", fn.qual, ok, "gives %s" % (show(o.val)[:160] if o.val is not None else o.kind), "contains")
    for fn in defs(ctx, "db::VersionedDatabase", "update"):
        s = ctx.summ(fn, lambda g: g.path == VDT + "update_batch" or g.impl_trait == VDT[:-2] and g.name == "update_batch", "j22", fine=True)
        a = plain(s)
        for o in s.outs:
            es = [e for e in o.events if e.kind == "call" and e.name.split("::")[-1] == "update_batch"]
            ok = o.kind == "ret" and len(es) == 1 and list(es[0].res.a[1:]) == a and same_res(o, es[0].res)
            ctx.ob("update", fn.qual, ok, "gives %s" % (show(o.val)[:160] if o.val is not None else o.kind), "update")
    for fn in defs(ctx, "db::VersionedDatabase", "is_empty"):
        s = ctx.summ(fn, lambda g: g.path == VDT + "len" or g.impl_trait == VDT[:-2] and g.name == "len", "j22", fine=True)
        a = plain(s)
        for o in s.outs:
            n = mk("call", VDT + "len", a[0])
            ok = o.kind == "ret" and truth_is(o, mk_eq(n, INT0))
            ctx.ob("empty", fn.qual, ok, "gives %s" % (show(o.val)[:160] if o.val is not None else o.kind), "is_empty")
    for fn in defs(ctx, "db::VersionedDatabase", "len"):
        s = ctx.summ(fn, None, "j22", fine=True)
        count_rows(ctx, s)
    for fn in defs(ctx, "db::VersionedDatabase", "version"):
        s = ctx.summ(fn, None, "j22", fine=True, folds=True)
        latest_rows(ctx, s)
    trait_rows(ctx)


def defs(ctx, trait, name):
    d = ctx.db("jmt")
    r = [f for f in d.by_path.values() if f.crate == "jmt" and f.kind == "fn" and f.name == name and (f.path == trait + "::" + name or f.impl_trait == trait)]
    r = [f for f in r if not (trait == "db::VersionedDatabase" and f.impl_trait == trait and name in ("nodes", "value_history", "get", "update_batch"))]
    if not r:
        raise Missing(trait + "::" + name)
    return r


def member(o, r):
    f = o.facts
    if f.truth(mk_isv(r, "Err")) is True or f.truth(mk_isv(r, "Ok")) is False:
        return same(f, o.val, interp.Err(payload(r, "Err"))) or o.val is r
    v = o.val
    if not (v.op == "adt" and v.a[1] == "Ok"):
        return False
    t = v.a[3][0]
    x = mk_isv(payload(r, "Ok"), "Some")
    return t is x or t in (INT0, INT1) and f.truth(x) is (t is INT1)


def same_res(o, r):
    f = o.facts
    if o.val is r:
        return True
    if f.truth(mk_isv(r, "Ok")) is True:
        return o.val.op == "adt" and o.val.a[1] == "Ok"
    if f.truth(mk_isv(r, "Ok")) is False:
        return same(f, o.val, interp.Err(payload(r, "Err")))
    return False


def truth_is(o, want):
    v = o.val
    return v is want or v in (INT0, INT1) and o.facts.truth(want) is (v is INT1)


def hist_src(x):
    """iterates the history entries of every key, given by the call or a map collected from it"""
    while x.op == "it" and x.a[0] in ("values", "into_values", "filter", "map", "filter_map"):
        x = x.a[1]
    return x


def last_has_value(f, h):
    """True / False / None: the facts say the last entry of h holds a value"""
    n = lnv(h)
    last = mk_idx(h, sub(n, INT1))
    val = mk("field", last, "1")
    if f.truth(mk_isv(val, "Some")) is True and entails(f, mk_lt(INT0, n)):
        return True
    if entails(f, mk_le(n, INT0)) or f.truth(mk_isv(val, "Some")) is False:
        return False
    l2 = mk("call", "last", h)
    if f.truth(mk_isv(l2, "Some")) is False:
        return False
    t = f.truth(mk_isv(mk("field", payload(l2), "1"), "Some"))
    return t


def count_rows(ctx, s):
    q = s.fn.qual
    selfv = plain(s)[0]
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("empty", q, False, "counting can panic", "panic")
            continue
        v = o.val
        L = None
        for lid, l in s.I.loops.items():
            if v in l.vars:
                L = l
        ctx.ob("empty", q, L is not None, "the count is %s" % show(v)[:120], "count")
        if L is None:
            continue
        n += 1
        init, steps = L.vars[v]
        src = next(iter(sources(L)), None)
        base = hist_src(src) if src is not None else None
        ok = base is not None and base.op == "call" and base.a[0].split("::")[-1] == "value_history" and base.a[1] is selfv
        ctx.ob("empty", q, ok, "counts over %s" % (show(base)[:120] if base is not None else None), "src")
        ctx.ob("empty", q, init is INT0, "starts from %s" % show(init)[:60], "init")
        if not ok:
            continue
        hs = [mk("elem", base, L.id), mk("field", mk("elem", base, L.id), "1"), mk("elem", mk("it", "values", base), L.id)]
        for st, f in steps:
            want = None
            for h in hs:
                t = last_has_value(f, h)
                if t is not None:
                    want = t
            inc = st is add(v, INT1)
            ctx.ob("empty", q, (inc and want is True) or (st is v and want is False), "a key %s although its last entry %s" % (
                "is counted" if inc else "is not counted", {True: "holds a value", False: "is a deletion", None: "was not looked at"}[want]), "step")
        for t, f in s.I.rejects.get(str(L.id), ()):
            w = [last_has_value(f, h) for h in hs]
            ctx.ob("empty", q, False in w and True not in w, "a key is passed over although its last entry may hold a value", "reject")
        ctx.ob("empty", q, any(k.op == "more" and t is False and str(k.a[1]) == str(L.id) for k, t in o.facts.d.items()), "stops before every key was seen", "exhaust")
    ctx.floor("empty", q, n, 1, "counting loops")


def latest_rows(ctx, s):
    """a scan over every history, and over every entry of it, that keeps the greater of the version kept and the entry's"""
    q = s.fn.qual
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("latest", q, False, "can panic", "panic")
            continue
        v = o.val
        L = next((l for l in s.I.loops.values() if v in l.vars), None)
        if L is None:
            p = flat_max(o, v, s)
            n += p is None
            ctx.ob("latest", q, p is None, p, "value")
            continue
        n += 1
        init, steps = L.vars[v]
        ctx.ob("latest", q, is_default(init), "starts from %s" % show(init)[:80], "init")
        src = [x for x in sources(L) if histories(x, s.I)]
        ctx.ob("latest", q, len(src) == 1 and ran_out(o.facts, L, src[0]) and not s.I.rejects.get(str(L.id)), "does not go through every history", "all")
        for st, f in steps:
            p = history_step(s, L, v, st, f, src[0] if src else None)
            ctx.ob("latest", q, p is None, p, "step:%s" % p)
    ctx.floor("latest", q, n, 1, "scans")


def is_default(t):
    return t.op == "call" and str(t.a[0]).startswith("default:") or t is INT0


def histories(x, I):
    """a walk over every history: the listing itself, or the map collected from it"""
    while x.op == "it" and x.a[0] in ("values", "iter", "into_iter", "keys", "rev", "copied", "cloned", "into_values"):
        if x.a[0] == "keys":
            return False
        x = x.a[1]
    return x.op == "call" and str(x.a[0]).split("::")[-1] == "value_history"


def ran_out(f, L, src):
    return any(k.op == "more" and t is False and k.a[0] is src and str(k.a[1]) == str(L.id) for k, t in f.d.items())


def history_of(L, src):
    e = mk("elem", src, L.id)
    return [mk("field", e, "1"), e] if src.op != "it" else [e, mk("field", e, "1")]


def history_step(s, L, v, st, f, src):
    if src is None:
        return "does not go through every history"
    hs = history_of(L, src)
    for l in s.I.loops.values():
        inner = [x for x in sources(l) if any(entries_of(x, h) for h in hs)]
        if not inner:
            continue
        src2 = inner[0]
        ver = version_at(s, src2, l)
        if s.I.rejects.get(str(l.id)):
            return "some entries of a history are left out"
        if not ran_out(f, l, src2):
            continue
        if st in l.vars and l.vars[st][0] is v:
            for x, g in l.vars[st][1]:
                p = greater(x, st, ver, g)
                if p:
                    return p
            return None
        # the greatest of the history, taken on its own
        for b, (i0, st2) in l.vars.items():
            if b.op != "lv" or i0 is not NONE:
                continue
            top = payload(b, "Some")
            for x, g in st2:
                if g.truth(mk_isv(b, "None")) is True:
                    if not (x.op == "adt" and x.a[1] == "Some" and x.a[3][0] is ver):
                        return "a history starts with %s" % show(x)[:80]
                    continue
                y = x.a[3][0] if x.op == "adt" and x.a[1] == "Some" else top if x is b else None
                p = greater(y, top, ver, g) if y is not None else "a history entry gives %s" % show(x)[:100]
                if p:
                    return p
            if f.truth(mk_isv(b, "None")) is True:
                return None if st is v else "an empty history gives %s" % show(st)[:80]
            return greater(st, v, top, f)
    return "a history is passed over, or only part of it is looked at"


def entries_of(x, h):
    while x.op == "it" and x.a[0] in ("iter", "into_iter", "rev", "map", "copied", "cloned"):
        x = x.a[1]
    return x is h


def version_at(s, src, l):
    """the version of the entry at hand"""
    e = mk("elem", src, l.id)
    x = src
    while x.op == "it":
        x = x.a[1]
    return mk("field", mk("elem", x, l.id), "0") if x is not src else mk("field", e, "0")


def greater(x, cur, new, f):
    """x is the greater of the two"""
    if x.op == "call" and str(x.a[0]).split("::")[-1] == "max" and set(x.a[1:]) == {cur, new}:
        return None
    if x is new:
        return None if entails(f, mk_le(cur, new)) or cmp_is(f, new, cur, ("Greater", "Equal")) else "takes a version that may be below the one kept"
    if x is cur:
        return None if entails(f, mk_le(new, cur)) or cmp_is(f, new, cur, ("Less", "Equal")) else "passes over a version that may be above the one kept"
    return "a history entry gives %s" % show(x)[:100]


def flat_max(o, v, s):
    """the greatest of all entries of all histories in one chain, or the default when there is none"""
    for k, dom in o.facts.dom.items():
        if k.op == "call" and k.a[0] == "iter_max" and len(k.a) == 2:
            src = k.a[1]
            if not (src.op == "it" and src.a[0] == "flat_map" and histories(src.a[1], s.I)):
                continue
            if not all_versions(src.a[2]):
                return "the greatest is taken of %s" % show(src)[:120]
            if set(dom) == {"None"}:
                return None if is_default(v) else "without an entry it is %s" % show(v)[:80]
            if set(dom) == {"Some"}:
                return None if v is payload(k, "Some") else "it is %s" % show(v)[:80]
    return "the latest version is %s" % show(v)[:120]


def all_versions(fn):
    """a function value that turns a history into the versions of its entries"""
    if fn.op != "lam":
        return False
    b = fn.a[0]
    bv = [x for x in subterms(b) if x.op == "bv"]
    if not (b.op == "it" and b.a[0] == "map" and b.a[1].op == "field" and b.a[1].a[1] == "1" and b.a[1].a[0].op == "bv"):
        return False
    g = b.a[2]
    return g.op == "lam" and g.a[0].op == "field" and g.a[0].a[1] == "0" and g.a[0].a[0].op == "bv" and g.a[0].a[0] is not b.a[1].a[0]


def trait_rows(ctx):
    names = {"get_with_proof", "get_value_option", "verify", "new_by_index", "len", "is_empty", "version", "new", "get"}

    def opaque(g):
        return g.name == "get_with_proof" or g.path.startswith(TRD) or g.path.startswith(VDT) or g.name in ("verify", "verify_existence", "verify_nonexistence") and "SparseMerkleProof" in g.path \
            or g.path.startswith("iterator::JellyfishMerkleIterator") and g.name in ("new", "new_by_index")
    rdr = lambda a: mk("field", a[0], "reader")

    def row(name, check, least=1):
        s = ctx.summ(VT + name, opaque, "j22t", fine=True)
        a = plain(s)
        n = 0
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("trait", s.fn.qual, False, name + " can panic", "panic")
                continue
            n += 1
            p = check(o, a)
            ctx.ob("trait", s.fn.qual, p is None, "%s: %s" % (name, p), "%s:%s" % (name, p))
        ctx.floor("trait", s.fn.qual, n, least, "outcomes")

    def evs(o, nm):
        return [e for e in o.events if e.kind == "call" and e.name.split("::")[-1] == nm]

    def get(o, a):
        es = evs(o, "get_value_option")
        if len(es) != 1:
            return "does not read once"
        r = es[0].res
        if r.a[1] is not rdr(a) or not is_version(r.a[2], a[2]) or r.a[3] is not a[1]:
            return "reads %s" % show(r)[:120]
        return None if o.val is r or same(o.facts, o.val, r) or same_res2(o, r) else "returns %s" % show(o.val)[:100]

    def wp(o, a, ver=2):
        es = evs(o, "get_with_proof")
        if len(es) != 1:
            return None, "does not look the key up once"
        r = es[0].res
        if r.a[1] is not a[0] or r.a[2] is not a[1] or r.a[3] is not a[ver]:
            return None, "looks up %s" % show(r)[:120]
        return r, None

    def get_proof(o, a):
        r, p = wp(o, a)
        if p:
            return p
        f = o.facts
        if f.truth(mk_isv(r, "Ok")) is False:
            return None if same(f, o.val, interp.Err(payload(r, "Err"))) else "an error becomes %s" % show(o.val)[:80]
        v = ok_val(o)
        return None if v is not None and v is mk("field", payload(r, "Ok"), "1") else "returns %s" % show(o.val)[:100]

    def verify_proof(o, a):
        r, p = wp(o, a)
        if p:
            return p
        f = o.facts
        if f.truth(mk_isv(r, "Ok")) is False:
            return None if same(f, o.val, interp.Err(payload(r, "Err"))) else "an error becomes %s" % show(o.val)[:80]
        es = [e for e in o.events if e.kind == "call" and e.name.split("::")[-1].startswith("verify")]
        if len(es) != 1:
            return "does not verify once"
        v = es[0].res
        value = mk("field", payload(r, "Ok"), "0")
        nm = es[0].name.split("::")[-1]
        if v.a[1] is not a[4] or v.a[2] is not a[3] or v.a[3] is not a[1]:
            return "verifies %s" % show(v)[:160]
        if nm == "verify":
            if v.a[4] is not value:
                return "verifies for the value %s" % show(v.a[4])[:80]
        elif nm == "verify_existence":
            if f.truth(mk_isv(value, "Some")) is not True or v.a[4] is not payload(value):
                return "verifies existence of %s" % show(v.a[4])[:80]
        elif f.truth(mk_isv(value, "Some")) is not False:
            return "verifies absence of a value that is there"
        return None if o.val is v or same_res2(o, v) else "returns %s" % show(o.val)[:100]

    def it(o, a):
        es = [e for e in o.events if e.kind == "call" and e.name.split("::")[-1] in ("new_by_index", "new") and "Iterator" in e.name]
        if len(es) != 1:
            return "does not start one iteration"
        v = es[0].res
        if v.a[1] is not rdr(a) or v.a[2] is not a[1]:
            return "starts %s" % show(v)[:100]
        if es[0].name.endswith("new_by_index"):
            if v.a[3] is not INT0:
                return "starts at index %s" % show(v.a[3])[:60]
        elif not zero_key(v.a[3]):
            return "starts at key %s" % show(v.a[3])[:60]
        return None if o.val is v or same_res2(o, v) else "returns %s" % show(o.val)[:100]

    def deleg(nm, wrap=None):
        def c(o, a):
            v = mk("call", VDT + nm, rdr(a))
            if nm == "is_empty":
                return None if o.val is v or truth_is(o, mk_eq(mk("call", VDT + "len", rdr(a)), INT0)) else "returns %s" % show(o.val)[:100]
            if nm == "version":
                return None if is_version(o.val, v) or o.val is mk("field", v, "0") else "returns %s" % show(o.val)[:100]
            return None if o.val is v else "returns %s" % show(o.val)[:100]
        return c
    row("get", get)
    row("get_proof", get_proof, 2)
    row("verify_proof", verify_proof, 2)
    row("iter", it)
    row("len", deleg("len"))
    row("is_empty", deleg("is_empty"))
    row("version", deleg("version"))
    row("reader", lambda o, a: None if value_at(o, o.val) is rdr(a) else "returns %s" % show(o.val)[:80])


def value_at(o, v):
    if v.op == "ptr" and v.a[0].op == "obj":
        x = v.a[0].a[0]
        for st in v.a[1]:
            x = mk("field", x, st[1]) if st[0] == "f" else x
        return x
    return v


def zero_key(k):
    v = proj(k, "0")
    return v.op == "repeat" and v.a[0] is INT0


def same_res2(o, r):
    f = o.facts
    v = o.val
    if f.truth(mk_isv(r, "Ok")) is True:
        return v.op == "adt" and v.a[1] == "Ok" and (v.a[3][0] is payload(r, "Ok") or v.a[3][0].op == "tuple" and not v.a[3][0].a[0])
    if f.truth(mk_isv(r, "Ok")) is False:
        return same(f, v, interp.Err(payload(r, "Err")))
    return False
