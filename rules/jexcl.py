"""Exclusion proofs (J16): the search for the key, the climb to the neighbouring subtree, the walk to its outermost leaf, and the assembly."""
from lib import *
import conc
import seqs
from jdb import plain
from jnode import kids
from jread import (T_, READ, CWS, CWO, GEN, PUSH, POP, NKEY, NPATH, Walk, summ, good, err_of, okv, is_key, root_key, is_path_of, doms, is_empty_path, steps, tyname, version_arg, depth_arg,
                   first, second, nothing, key_arg, uncast, _O, no_nibble, here_call, kid_of)

TREE = "tree::JellyfishMerkleTree::<R, H>::"
EXTREME = "get_extreme_key_hash"
CLIMB = "search_closest_extreme_node"
SEARCH = "search_for_closest_node"
BOUND = "get_bounding_path"
GWP = "get_with_proof"


def variants(s, x):
    """the variants of a two-valued argument"""
    t = s.fn.locals[x.a[0] + 1]["ty"]
    return t


def variant_of(f, x, names):
    for n in names:
        if f.truth(mk_isv(x, n)) is True:
            return n
    return None


def enum_arg(s, a, skip=()):
    """the argument that says which side"""
    for x in a[1:]:
        t = s.fn.locals[x.a[0] + 1]["ty"]
        while t.get("k") == "ref":
            t = t["t"]
        if t.get("k") == "adt" and t["p"].startswith("tree::") and t["p"].endswith("Extreme"):
            return x
    return None


NAMES = ("Left", "Right")


def check_exclusion(ctx):
    ctx.rule("outermost", "the walk in a subtree goes on to the least (or to the greatest) child at every level, under its recorded version, and ends with the leaf's key")
    ctx.rule("climb", "levels are left one by one, with the nibble they were entered by, until a node has a child beyond that nibble; that node's nearest such child is entered, under its recorded version")
    ctx.rule("search", "the search for the key records the nodes passed, in order, and the path up to where it ends")
    ctx.rule("sides", "a leaf met before the key is the left neighbour and the right one is searched from there, and the other way round; where no leaf is met both are searched")
    ctx.rule("proofs", "a present key gives its value and proof; an absent one gives the proofs of exactly the neighbours that exist, at the same version")
    modes = outermost(ctx)
    dirs = climb(ctx, modes)
    conv = search(ctx)
    sides(ctx, dirs, conv)
    assembly(ctx)


def outermost(ctx):
    s = summ(ctx, EXTREME)
    a = plain(s)
    q = s.fn.qual
    w = Walk(s, mk("field", a[0], "reader"))
    modes = {}
    ctx.ob("outermost", q, w.ok(), "no walk is recognised", "walk")
    e, d = enum_arg(s, a), depth_arg(s, a)
    if not w.ok() or e is None:
        return modes
    nk = [x for x in a if tyname(s, x) == NKEY]
    ctx.ob("outermost", q, len(nk) == 1 and w.init is nk[0], "starts at %s" % show(w.init)[:100], "start")
    arr = kids(w.inner)
    bad = set()
    for x, f in w.steps:
        n = w.addressed(x, f) if w.entry(f) == "Internal" else None
        v = variant_of(f, e, NAMES)
        m = None
        why = "goes on to %s" % show(x)[:160]
        for vv in [v] if v else NAMES:
            if n is not None:
                ps, u, dead = conc.findings(s, f, arr, None, {e: (vv,)}, (n, x))
                if dead:
                    continue
                ms = [p.spec for p in ps if p.some and p.is_nibble(n)]
                m = ms[0] if ms else None
                why = u or why
            ctx.ob("outermost", q, m is not None, why, "step")
            if m is not None and modes.setdefault(vv, m) != m:
                bad.add(vv)
    ctx.ob("outermost", q, set(modes) == set(NAMES) and not bad and len(set(modes.values())) == 2, "walks: %s" % modes, "modes")
    base = d if d is not None else INT0
    for o in s.outs:
        f = good(o, None)
        if f is None:
            continue
        k = w.entry(f)
        if o.kind == "panic":
            # a node without children does not exist (J14)
            ok = True
            for vv in NAMES:
                if f.truth(mk_isv(e, vv)) is not False:
                    ps, u, dead = conc.findings(s, f, arr, None, {e: (vv,)})
                    ok &= dead or any(not p.some for p in ps)
            ctx.ob("outermost", q, ok, "can panic", "panic")
        elif k == "Leaf":
            ctx.ob("outermost", q, not is_err(o) and okv(o) is mk("field", w.leaf, "key_hash"), "a leaf gives %s" % show(o.val)[:100], "leaf")
        elif k is None:
            ctx.ob("outermost", q, is_err(o) and w.enough(f, base), "the walk ends early with %s" % show(o.val)[:100], "levels")
        else:
            ctx.ob("outermost", q, is_err(o), "%s gives %s" % (k, show(o.val)[:100]), "other")
    return modes


# ---------------------------------------------------------------- the climb
def climb(ctx, modes):
    s = summ(ctx, CLIMB, (EXTREME,))
    a = plain(s)
    q = s.fn.qual
    e, ver = enum_arg(s, a), version_arg(s, a)
    to = [x for x in a if tyname(s, x) == NPATH]
    par = [x for x in a if tyname(s, x).endswith("Vec")]
    dirs = {}
    P = p = L = None
    for l in s.I.loops.values():
        for v, (init, st) in l.vars.items():
            if par and init is par[0]:
                P, L = v, l
            if to and init is to[0]:
                p = v
    ctx.ob("climb", q, None not in (P, p, L, e), "no loop leaves level after level", "loop")
    if None in (P, p, L, e):
        return dirs
    top = mk("call", "last", P)
    node = payload(top)
    arr = kids(node)
    popped = mk("popped", P)
    pop = mk("call", POP, p)
    rest = mk("eff", POP, 0, p)
    idx = payload(pop)
    seen = set()
    bad = set()
    rounds = []
    # what a round carries over to the next; a found neighbour may be carried to the loop's exit
    nb = len(L.backs)
    carried = [v for v, (init, st) in L.vars.items() if v not in (P, p) and init is NONE]
    for k in range(nb):
        st = {v: L.vars[v][1][k][0] for v in L.vars if len(L.vars[v][1]) == nb}
        for f, st in settle(L.backs[k].facts, st, carried):
            rounds.append((f, st, None))
    heads = []
    for o in s.outs:
        if any(o.facts.truth(mk_isv(v, "Some")) is True for v in carried):
            continue
        heads.append((o.facts, None, o))
    late = [o for o in s.outs if any(o.facts.truth(mk_isv(v, "Some")) is True for v in carried)]
    for f, st, o in rounds:
        if any(st.get(v, v) is not NONE and st.get(v, v) is not v for v in carried):
            # the exit that follows such a round
            n = 0
            for o in late:
                g = compose(f, o.facts, st)
                if g is None:
                    continue
                n += 1
                heads.append((g, None, _Out(o, subst(o.val, st), g)))
            ctx.ob("climb", q, n > 0, "a neighbour found is not used", "late")
        else:
            heads.append((f, st, None))
    for f, st, o in heads:
        up = f.truth(mk_isv(top, "Some"))
        if o is not None and o.kind == "panic":
            # paths and nodes passed are of the same length
            ok = up is True and f.truth(mk_isv(pop, "None")) is True
            ctx.ob("climb", q, ok, "can panic", "panic")
            continue
        if up is not True:
            seen.add("top")
            ctx.ob("climb", q, up is False and st is None and not is_err(o) and okv(o) is NONE, "with no level left it gives %s" % (show(o.val)[:80] if o else "another round"), "top")
            continue
        v = variant_of(f, e, NAMES)
        if v is None:
            for vv in NAMES:
                g = f.assume(mk_isv(e, vv), True)
                if g is not None:
                    heads.append((g, st, o))
            continue
        cs = [t for t in doms(f) if t.op == "call" and t.a[0] == TREE + EXTREME]
        key = [x for c in cs for x in c.a[1:] if is_key(x)]
        path = proj(key[0], "nibble_path") if key else None
        nib = path.a[3] if path is not None and path.op == "eff" and path.a[0] == PUSH else None
        carry = list(st.values()) if st else [o.val]
        ps, why, dead = conc.findings(s, f, arr, idx, {e: (v,)}, [x for x in carry + key if isinstance(x, T)])
        if dead:
            continue
        ps = [p for p in ps if p.spec in ("next", "previous") and (nib is None or p.is_nibble(nib))]
        pk = None
        for p_ in ps:
            if p_.some == (nib is not None):
                pk = pk or p_
        d = pk.spec if pk else None
        ctx.ob("climb", q, d is not None, why or "no child is looked for", "pick")
        if d is None:
            continue
        if dirs.setdefault(v, d) != d:
            bad.add(v)
        if not pk.some:
            seen.add((v, "none"))
            ctx.ob("climb", q, st is not None and st[P] is popped and st[p] is rest, "with no such child it goes on with %s" % (show(st[p])[:80] if st else show(o.val)[:80]), "up")
            continue
        seen.add((v, "some"))
        ok = st is None and len(set(cs)) == 1
        why = "a child found gives %s" % (show(o.val)[:100] if o else "another round")
        if ok:
            c = cs[0]
            args = c.a[1:]
            key = [x for x in args if is_key(x)]
            kb = key[0] if len(key) == 1 else None
            path = proj(kb, "nibble_path") if kb is not None else None
            ok = kb is not None and pk.is_version(proj(kb, "version")) and path.op == "eff" and path.a[0] == PUSH and path.a[2] is rest and pk.is_nibble(path.a[3])
            why = "enters %s" % (show(kb)[:200] if kb is not None else "?")
            if ok:
                g = [x for x in args if x.op == "adt" and x.a[1] in NAMES]
                m = modes.get(g[0].a[1] if g else v if e in args else None)
                ok = args[0] is a[0] and ver in args and m == ("least" if d == "next" else "greatest")
                why = "enters the %s neighbour for its %s key" % (d, m)
            if ok:
                dep = mk("field", path, "num_nibbles")
                ok = dep in args
                why = "enters at another depth than the path's"
            if ok:
                if f.truth(mk_isv(c, "Ok")) is True:
                    x = okv(o)
                    ok = not is_err(o) and x.op == "adt" and x.a[1] == "Some" and x.a[3][0] is payload(c, "Ok")
                    why = "gives %s" % show(o.val)[:100]
                else:
                    ok = is_err(o)
                    why = "an error gives %s" % show(o.val)[:100]
        ctx.ob("climb", q, ok, why, "enter")
    ctx.ob("climb", q, {"top"} | {(v, k) for v in NAMES for k in ("none", "some")} <= seen and not bad and set(dirs.values()) == {"next", "previous"}, "cases: %s" % sorted(map(str, seen)), "cases")
    return dirs


class _Out:
    def __init__(self, o, val, facts):
        self.kind, self.val, self.facts = o.kind, val, facts


def settle(f, st, vs):
    """tells the rounds apart in which a carried value is None or Some"""
    rs = [(f, st)]
    for v in vs:
        x = st.get(v, v)
        if x is v or x.op == "adt":
            continue
        nx = []
        for f, st in rs:
            for n in ("None", "Some"):
                g = f.assume(mk_isv(x, n), True)
                if g is not None:
                    nx.append((g, st if n == "Some" else {**st, v: NONE}))
        rs = nx
    return rs


def compose(f, g, m):
    """facts g after the round f took the variables to m; None when impossible"""
    for k, v in g.d.items():
        f = f.assume(subst(k, m), v)
        if f is None:
            return None
    for k, vs in g.dom.items():
        k2 = subst(k, m)
        if k2.op == "adt":
            if k2.a[1] not in vs:
                return None
            continue
        if len(vs) == 1:
            (x,) = vs
            f = f.assume(mk_isv(k2, x), True)
            if f is None:
                return None
        else:
            f = Facts(f.d, dict(f.dom, **{}))
            f.dom[k2] = vs
    return f


# ---------------------------------------------------------------- the search
def search(ctx):
    s = summ(ctx, SEARCH)
    a = plain(s)
    q = s.fn.qual
    ver, key = version_arg(s, a), key_arg(s, a)
    w = Walk(s, mk("field", a[0], "reader"), key)
    ctx.ob("search", q, w.ok(), "no walk from the root is recognised", "walk")
    if not w.ok():
        return None
    ctx.ob("search", q, root_key(w.init, ver), "starts at %s" % show(w.init)[:120], "root")
    steps(ctx, "search", w, q, lambda n, f: w.nibble(n, f), key)
    P = None
    for v, (init, st) in w.L.vars.items():
        if init.op == "empty" and st and all(x.op == "push" and x.a[0] is v and x.a[1] is w.inner for x, f in st):
            P = v
    ctx.ob("search", q, P is not None, "the nodes passed are not all recorded", "nodes")
    if P is None:
        return None
    conv = None
    seen = set()
    for o in s.outs:
        f = good(o, key)
        if f is None:
            continue
        k = w.entry(f)
        if o.kind == "panic":
            ctx.ob("search", q, False, "can panic", "panic")
            continue
        if is_err(o):
            ok = k not in ("Leaf",) and (k != "Internal" or no_nibble(f, w)) and (k is not None or w.enough(f))
            ctx.ob("search", q, ok, "%s gives an error" % k, "err:%s" % k)
            continue
        r = okv(o)
        if k == "Leaf":
            seen.add("leaf")
            fl = dict(zip(r.a[2], r.a[3])) if r.op == "adt" else {}
            kh = mk("field", w.leaf, "key_hash")
            c = [x for x in fl.values() if x.op == "call" and x.a[0] == "cmp"]
            ok = r.op == "adt" and kh in fl.values() and P in fl.values() and len(c) == 1 and any(path_upto(w, x, w.ind, f) for x in fl.values())
            ctx.ob("search", q, ok, "a leaf gives %s" % show(r)[:200], "leaf")
            if ok:
                x, y = c[0].a[1], c[0].a[2]
                conv = "leaf" if x is kh and y is key else "key" if x is key and y is kh else None
                ctx.ob("search", q, conv is not None, "compares %s" % show(c[0])[:100], "cmp")
        elif k == "Internal":
            seen.add("inner")
            c = here_call(f, w)
            gone = c is not None and f.truth(mk_isv(kid_of(c), "None")) is True and w.nibble(c.a[3], f)
            fl = r.a[3] if r.op == "adt" else ()
            ok = gone and mk("push", P, w.inner) in fl and any(path_upto(w, x, add(w.ind, INT1), f, c.a[3]) for x in fl)
            ctx.ob("search", q, ok, "a missing child gives %s" % show(r)[:200], "inner")
        else:
            ctx.ob("search", q, False, "%s gives %s" % (k, show(r)[:100]), "other")
    ctx.ob("search", q, seen == {"leaf", "inner"}, "cases: %s" % sorted(seen), "cases")
    return conv


def path_upto(w, x, n, f, nib=None):
    """x is the path of the key's first n nibbles"""
    if x.op == "call" and x.a[0].endswith("get_nibble_path"):
        i = x.a[1]
        if i.op != "adt" or not is_path_of(proj(i, "nibble_path"), w.key):
            return False
        st, pos = proj(i, "start"), proj(i, "pos")
        return st is INT0 and pos.op == "adt" and same(f, w.t(pos.a[3][1]), n)
    here = mk("field", w.nk, "nibble_path")
    if n is w.ind:
        return x is here
    return x.op == "eff" and x.a[0] == PUSH and x.a[2] is here and nib is not None and x.a[3] is nib


# ---------------------------------------------------------------- the two sides
def sides(ctx, dirs, conv):
    s = summ(ctx, BOUND, (CLIMB, SEARCH))
    a = plain(s)
    q = s.fn.qual
    ver, key = version_arg(s, a), key_arg(s, a)
    seen = set()
    for o in s.outs:
        f = o.facts
        if o.kind == "panic":
            ctx.ob("sides", q, False, "can panic", "panic")
            continue
        sr = {t for t in doms(f) if t.op == "call" and t.a[0] == TREE + SEARCH}
        ok = len(sr) == 1
        if ok:
            (sr,) = sr
            ok = sr.a[1] is a[0] and set(sr.a[2:]) == {ver, key}
        ctx.ob("sides", q, ok, "answers without searching for the key at the version", "search")
        if not ok or f.truth(mk_isv(sr, "Err")) is True:
            continue
        r = payload(sr, "Ok")
        cl = {t for t in doms(f) if t.op == "call" and t.a[0] == TREE + CLIMB}
        if any(f.truth(mk_isv(t, "Err")) is True for t in cl):
            ctx.ob("sides", q, is_err(o), "an error gives %s" % show(o.val)[:80], "err")
            continue
        leaf = f.truth(mk_isv(r, "FoundLeaf"))
        if leaf is None:
            ctx.ob("sides", q, False, "does not look at what was found", "found")
            continue
        if leaf:
            order = mk("field", mk("as", r, "FoundLeaf"), "ordering")
            od = next((n for n in ("Less", "Equal", "Greater") if f.truth(mk_isv(order, n)) is True), None)
            if od == "Equal":
                seen.add("eq")
                ctx.ob("sides", q, is_err(o), "a leaf of the key itself gives %s" % show(o.val)[:80], "eq")
                continue
            if od is None or conv is None:
                ctx.ob("sides", q, False, "does not tell the leaf's side", "order")
                continue
            before = (od == "Less") == (conv == "leaf")
            seen.add(before)
            hash_ = mk("field", mk("as", r, "FoundLeaf"), "leaf_hash")
            x = None if is_err(o) else okv(o)
            got, other = (first(x), second(x)) if before else (second(x), first(x)) if x is not None else (None, None)
            ok = x is not None and got.op == "adt" and got.a[1] == "Some" and got.a[3][0] is hash_ and is_climb(other, a[0], ver, r, "FoundLeaf", "next" if before else "previous", dirs)
            ctx.ob("sides", q, ok, "a leaf %s the key gives %s" % ("before" if before else "after", show(o.val)[:200]), "leaf:%s" % before)
        else:
            seen.add("inner")
            x = None if is_err(o) else okv(o)
            ok = x is not None and is_climb(first(x), a[0], ver, r, "FoundInternal", "previous", dirs) and is_climb(second(x), a[0], ver, r, "FoundInternal", "next", dirs)
            ctx.ob("sides", q, ok, "a missing child gives %s" % show(o.val)[:200], "inner")
    ctx.ob("sides", q, {True, False, "inner"} <= seen, "cases: %s" % sorted(map(str, seen)), "cases")


def is_climb(t, self_, ver, r, variant, d, dirs):
    if not (t.op == "field" and t.a[0].op == "as" and t.a[0].a[1] == "Ok"):
        return False
    c = t.a[0].a[0]
    if c.op != "call" or c.a[0] != TREE + CLIMB or c.a[1] is not self_ or ver not in c.a[2:]:
        return False
    side = [x for x in c.a[2:] if x.op == "adt" and x.a[1] in NAMES]
    if len(side) != 1 or dirs.get(side[0].a[1]) != d:
        return False
    rest = [x for x in c.a[2:] if x is not ver and x is not side[0]]
    flds = [x for x in rest if x.op == "field" and x.a[0] is mk("as", r, variant)]
    return len(flds) == 2 and flds[0].a[1].startswith("path") and flds[1].a[1] == "parents"


# ---------------------------------------------------------------- the answer
def assembly(ctx):
    s = summ(ctx, "get_with_exclusion_proof", (GWP, BOUND))
    a = plain(s)
    q = s.fn.qual
    key, ver = a[1], a[2]
    read = lambda k: mk("call", TREE + GWP, a[0], k, ver)
    bp = mk("call", TREE + BOUND, a[0], key, ver)
    g = read(key)
    seen = set()
    for o in s.outs:
        f = o.facts
        if o.kind == "panic":
            ctx.ob("proofs", q, False, "can panic", "panic")
            continue
        if f.truth(mk_isv(g, "Err")) is True:
            continue
        if f.truth(mk_isv(g, "Ok")) is not True:
            ctx.ob("proofs", q, False, "answers %s without reading the key at the version" % show(o.val)[:80], "read")
            continue
        r = payload(g, "Ok")
        val = f.truth(mk_isv(mk("field", r, "0"), "Some"))
        if val:
            seen.add("value")
            x = None if is_err(o) else okv(o)
            y = x.a[3][0] if x is not None and x.op == "adt" and x.a[1] == "Ok" else None
            ok = y is not None and first(y) is payload(mk("field", r, "0")) and second(y) is mk("field", r, "1")
            ctx.ob("proofs", q, ok, "a present key gives %s" % show(o.val)[:160], "value")
            continue
        ctx.ob("proofs", q, val is False, "does not look at the value", "val")
        if f.truth(mk_isv(bp, "Err")) is True:
            continue
        if f.truth(mk_isv(bp, "Ok")) is not True:
            ctx.ob("proofs", q, False, "answers %s without the neighbours" % show(o.val)[:80], "bounds")
            continue
        b = payload(bp, "Ok")
        side = []
        failed = False
        for i in (0, 1):
            t = mk("field", b, str(i))
            there = f.truth(mk_isv(t, "Some"))
            side.append((there, read(payload(t))))
            failed = failed or there and f.truth(mk_isv(side[i][1], "Err")) is True
        if failed:
            continue
        (l, lp), (rr, rp) = side
        if l is None or rr is None:
            ctx.ob("proofs", q, False, "does not look at both neighbours", "both")
            continue
        if not l and not rr:
            ctx.ob("proofs", q, is_err(o), "no neighbour at all gives %s" % show(o.val)[:100], "nobody")
            continue
        seen.add((l, rr))
        x = None if is_err(o) else okv(o)
        y = x.a[3][0] if x is not None and x.op == "adt" and x.a[1] == "Err" else None
        want = {(True, True): "Middle", (True, False): "Rightmost", (False, True): "Leftmost"}[(l, rr)]
        ok = y is not None and y.op == "adt" and y.a[1] == want
        if ok:
            for there, n, c in ((l, "rightmost_left_proof", lp), (rr, "leftmost_right_proof", rp)):
                if there:
                    ok = ok and proj(y, n) is mk("field", payload(c, "Ok"), "1")
        ctx.ob("proofs", q, ok, "neighbours %s give %s" % (want, show(o.val)[:260]), "sides:%s" % want)
    ctx.ob("proofs", q, seen == {"value", (True, True), (True, False), (False, True)}, "cases: %s" % sorted(map(str, seen)), "cases")
