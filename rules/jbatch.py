"""Computing a version from whole sets of pairs (rest of J23, J08, J05): how each pair is brought to the tree, and the batch walk.

The single operations below are kept uninterpreted; what a path stages is the list of operations applied to the staging area it was given, in order."""
from lib import *
from interp import mk_idx
from jdb import plain
import jins
from jcache import f_
import jread
from jins import effof, failing, named, opq, peel, KIDOPS, NEWS

T_ = jread.T_
I_, S_, E_ = "batch_insert_at", "batch_create_subtree", "batch_create_subtree_with_existing_leaf"


def short(e):
    return e.a[0].split("::")[-1]


def call_of(e):
    """the call an effect belongs to"""
    return mk("call", e.a[0], *e.a[2:])


def went_well(f, e):
    return f.truth(mk_isv(call_of(e), "Ok")) is True


def second(t, i):
    return t.a[0][i] if t.op == "tuple" else mk("field", t, str(i))


def empty_path(p):
    if p.op == "call" and p.a[0].endswith("::new") and "nibble_path" in p.a[0]:
        return p.a[1].op == "empty"
    return p.op == "adt" and p.a[0].endswith("NibblePath") and is_int(proj(p, "num_nibbles")) and proj(p, "num_nibbles").a[0] == 0


def rootkey(f, k, version):
    return k.op == "adt" and k.a[0] == jread.NKEY and same(f, proj(k, "version"), version) and empty_path(proj(k, "nibble_path"))


class B:
    def __init__(self, ctx, want, q):
        self.ctx, self.want, self.q = ctx, want, q

    def ob(self, want, rule, ok, text, cat=None):
        if self.want == want:
            self.ctx.ob(rule, self.q, ok, text, cat)


# ---------------------------------------------------------------- sets of values
def result_of(v):
    """the staging area whose frozen contents the Ok value hands out"""
    x = v.a[3][0] if v.op == "adt" else payload(v, "Ok")
    roots, b = second(x, 0), second(x, 1)
    if roots.op != "field" or roots.a[1] != "root_hashes":
        return None
    fz = roots.a[0]
    if fz.op != "field" or fz.a[1] != "frozen_cache":
        return None
    for n, m in (("node_batch", "node_cache"), ("stale_node_index_batch", "stale_node_index_cache"), ("node_stats", "node_stats")):
        if proj(b, n) is not mk("field", fz, m):
            return None
    return fz.a[0]


def whole(f, L, src):
    """the loop ended because src is exhausted"""
    for k, v in f.d.items():
        if k.op == "more" and v is False and k.a[1] == L.id and jins.base_of(k.a[0]) is src:
            return True
    return False


def loop_with(s, v):
    for L in s.I.loops.values():
        if v in L.vars:
            return L
    return None


def sets(ctx, want, name, opaque, inner, source):
    """the loop over the sets: init, the version of each, freezing after each"""
    s = ctx.summ(T_ + name, opq(opaque), "jins", fine=2)
    b = B(ctx, want, s.fn.qual)
    par = plain(s)
    first = par[-1]
    n = 0
    for o in s.outs:
        if o.kind != "ret":
            b.ob("J23", "total", source(None, None, o, None) is True, "panics on a path that can be taken", "panic")
            continue
        if is_err(o):
            b.ob("J23", "result", failing(o), "fails on a path on which nothing went wrong", "err")
            continue
        X = result_of(o.val)
        L = X is not None and loop_with(s, X)
        if not L:
            b.ob("J23", "result", False, "what is handed out is not the staging area's frozen contents", "result")
            continue
        n += 1
        src = jins.base_of(source(par, s, o, None))
        b.ob("J23", "result", any(whole(o.facts, L, x) for x in zipped(src)), "ends before every set was taken", "end")
        init, steps = L.vars[X]
        want_init = [t for t in o.facts.dom if named(t, "new") and "TreeCache" in t.a[0]]
        b.ob("J23", "result", any(init is payload(t, "Ok") and t.a[1] is mk("field", par[0], "reader") and t.a[2] is first for t in want_init), "staging starts from %s" % show(init)[:100], "start")
        ver = add(first, mk("ind", L.id, INT0))
        for (t, f), bk in zip(steps, L.backs):
            es, base = peel(t)
            ok = bool(es) and short(es[-1]) == "freeze" and went_well(bk.facts, es[-1])
            b.ob("J23", "frozen", ok, "a set's changes are not frozen as its version before the next", "freeze")
            if ok:
                inner(b, s, L, X, ver, es[:-1], base, bk.facts, src)
    ctx.floor("result", s.fn.qual, n, 1, "successful outcomes")


def zipped(src):
    """src, or the sequence src pairs with another"""
    if src.op == "call" and src.a[0].split("::")[-1] in ("zip_eq", "zip") and len(src.a) == 3:
        return [src, src.a[1]]
    if src.op == "it" and src.a[0] == "zip":
        return [src, src.a[1]]
    return [src]


def put_inner(b, s, L, X, ver, es, Y, f, src):
    if es:
        b.ob("J23", "each", False, "does %s after a set's pairs were taken" % ", ".join(short(e) for e in es), "after")
    M = loop_with(s, Y)
    if not M or M is L:
        b.ob("J23", "each", False, "a set's pairs are not taken one by one", "loop")
        return
    kvs = mk("elem", src, L.id)
    b.ob("J23", "each", whole(f, M, kvs), "goes on before every pair of the set was taken", "end")
    init, steps = M.vars[Y]
    b.ob("J23", "each", init is X, "a set's pairs are applied to another staging area", "init")
    kv = mk("elem", kvs, M.id)
    b.ctx.floor("each", b.q, len(steps), 4, "rounds over a set's pairs")
    for (t, _), bk in zip(steps, M.backs):
        one_put(b, t, Y, ver, mk("field", kv, "0"), mk("field", kv, "1"), bk.facts)


def one_put(b, t, Y, ver, key, value, f):
    es, base = peel(t)
    names = [short(e) for e in es]
    b.ob("J23", "each", base is Y, "a pair is applied to another staging area", "base")
    vals = [e for e in es if short(e) == "put_value"]
    ok = len(vals) == 1 and same(f, vals[0].a[3], ver) and vals[0].a[4] is key and vals[0].a[5] is value
    b.ob("J23", "each", ok, "stages the value %s" % (show(vals[0])[:150] if vals else "nowhere"), "value")
    ins = [e for e in es if short(e) == "insert_at"]
    if len(ins) != 1 or ins[0].a[1] != 5:
        b.ob("J23", "each", False, "a pair is inserted %d times" % len(ins), "insert")
        return
    e, = ins
    _, nk, v, it, val, tc = e.a[2:]
    ok = named(nk, "get_root_node_key") and len(nk.a) == 2 and all(short(x) == "put_value" for x in peel(nk.a[1])[0]) and peel(nk.a[1])[1] is Y
    b.ob("J05", "addressed", ok, "starts at %s instead of the current root" % show(nk)[:120], "root")
    b.ob("J23", "each", same(f, v, ver), "inserts at version %s" % show(v)[:80], "version")
    kb = mk("field", key, "0")
    ok = named(it, "nibbles") and named(it.a[1], "new") and "nibble_path" in it.a[1].a[0] and it.a[1].a[1] is kb
    b.ob("J23", "each", ok, "walks along %s instead of the key" % show(it)[:120], "key")
    t = f.truth(mk_isv(value, "Some"))
    if t is True:
        ok = val.op == "adt" and val.a[1] == "Some" and is_hash(val.a[3][0], payload(value))
    else:
        ok = t is False and val.op == "adt" and val.a[1] == "None" or val is value
    b.ob("J23", "each", ok, "inserts %s for %s" % (show(val)[:100], {True: "a value", False: "a deletion", None: "either"}[t]), "hash")
    r = payload(call_of(e), "Ok")
    b.ob("J23", "each", went_well(f, e), "goes on after a failure", "fail")
    d = f.dom.get(r) or frozenset()
    if len(d) != 1:
        b.ob("J23", "each", False, "does not look at what became of the tree", "case")
        return
    rest = [x for x in es if x is not e and short(x) != "put_value"]
    after = es[es.index(e) + 1:]
    b.ob("J23", "each", all(x in after for x in rest), "the root is changed before the insertion", "order")
    roots = [x for x in rest if short(x) == "set_root_node_key"]
    puts = [x for x in rest if short(x) == "put_node"]
    b.ob("J23", "each", len(roots) + len(puts) == len(rest), "does %s besides" % ", ".join(short(x) for x in rest), "other")
    k, = d
    if k == "NotChanged":
        b.ob("J23", "each", not rest, "changes the root although nothing changed", "same")
    elif k == "Updated":
        want = mk("field", payload(r, "Updated"), "0")
        b.ob("J23", "each", len(roots) == 1 and roots[0].a[3] is want and not puts, "the root becomes %s" % (show(roots[0].a[3])[:100] if roots else "nothing new"), "root")
    elif k == "Removed":
        ok = len(roots) == 1 and rootkey(f, roots[0].a[3], ver) and len(puts) == 1 and rootkey(f, puts[0].a[3], ver) and is_null(puts[0].a[4]) and went_well(f, puts[0])
        b.ob("J23", "each", ok, "the tree becomes empty, yet the root %s" % (show(roots[0].a[3])[:100] if roots else "stays"), "empty")


def is_null(n):
    return n.op == "adt" and n.a[0].endswith("::Node") and n.a[1] == "Null"


def is_hash(t, v):
    """ValueHash of H over the bytes of v, and nothing else"""
    if t.op != "adt" or not t.a[0].endswith("ValueHash"):
        return False
    h = t.a[3][0]
    return h.op == "H" and len(h.a) == 2 and h.a[1] is v


def check_sets(ctx, want):
    # nothing can panic here: the operations below are covered elsewhere
    sets(ctx, want, "put_value_sets", ("insert_at",), put_inner, lambda par, s, o, x: par and par[1])
    s = ctx.summ(T_ + "put_value_set", opq(("put_value_sets",)), "jins", fine=2)
    b = B(ctx, want, s.fn.qual)
    selfv, values, version = plain(s)
    for o in s.outs:
        R = [t for t in o.facts.dom if named(t, "put_value_sets")]
        ok = len(R) == 1 and R[0].a[1] is selfv and one_set(R[0].a[2], values) and R[0].a[3] is version
        b.ob("J23", "result", ok, "does not compute the version from the set given", "call")
        if not ok:
            continue
        r = payload(R[0], "Ok")
        if o.kind == "panic":
            # only when there is not exactly one root for one set
            ok = any(k.op in ("eq0", "ge0", "eq") and any(x is mk("call", "len", mk("field", r, "0")) for x in subterms(k)) for k in o.facts.d) and \
                o.facts.truth(mk_eq(mk("call", "len", mk("field", r, "0")), INT1)) is False
            b.ob("J23", "total", ok, "panics on a path that can be taken", "panic")
        elif is_err(o):
            b.ob("J23", "result", failing(o), "fails on a path on which nothing went wrong", "err")
        else:
            v = ok_val(o)
            x, y = second(v, 0), second(v, 1)
            ok = x.op == "idx" and x.a[0] is mk("field", r, "0") and x.a[1] is INT0 and y is mk("field", r, "1")
            b.ob("J23", "result", ok, "gives %s" % show(v)[:120], "result")


def ok_val(o):
    return o.val.a[3][0] if o.val.op == "adt" else payload(o.val, "Ok")


def one_set(t, x):
    return t.op == "arr" and len(t.a[0]) == 1 and t.a[0][0] is x or t.op == "push" and t.a[0].op == "empty" and t.a[1] is x


# ---------------------------------------------------------------- batches
def batch_source(par, s, o, x):
    if par is None:
        return o.kind == "panic" and (empty_set(o.facts))
    for k in o.facts.d:
        if k.op == "more" and k.a[1] == x:
            return k.a[0]
    # the sets, paired with their hashes
    for k, v in o.facts.d.items():
        if k.op == "more" and v is False and par[1] in zipped(jins.base_of(k.a[0])):
            b = jins.base_of(k.a[0])
            if b is not par[1]:
                return b
    return par[1]


def empty_set(f):
    """a set without pairs is refused"""
    return any(k.op == "ge0" and v is True and k.a[0].op == "lin" and lin_of(k.a[0])[0] == 0 and
               [c for x, c in lin_of(k.a[0])[1].items() if x.op == "call" and x.a[0] == "len" and any(y.op == "elem" for y in subterms(x))] == [-1] for k, v in f.d.items()) or \
        any(k.op == "eq0" and v is True and any(x.op == "call" and x.a[0] == "len" for x in subterms(k)) for k, v in f.d.items())


def batch_inner(b, s, L, X, ver, es, base, f, src):
    kv0 = mk("elem", src, L.id)
    kvs = mk("field", kv0, "0") if len(zipped(src)) == 2 else kv0
    ordered = mk("call", "ordered", kvs)
    ins = [e for e in es if short(e) == I_]
    if len(ins) != 1 or ins[0].a[1] != 6:
        b.ob("J23", "each", False, "a set is inserted %d times" % len(ins), "insert")
        return
    e, = ins
    _, nk, v, pairs, depth, cache, tc = e.a[2:]
    ok = named(nk, "get_root_node_key") and all(short(x) == "put_value" for x in peel(nk.a[1])[0]) and peel(nk.a[1])[1] is base
    b.ob("J05", "addressed", ok, "starts at %s instead of the current root" % show(nk)[:120], "root")
    b.ob("J23", "each", same(f, v, ver) and depth is INT0, "inserts at version %s, depth %s" % (show(v)[:80], show(depth)[:40]), "version")
    ok = pairs.op == "coll" and pairs.a[1] is ordered and len(pairs.a[2]) == 1
    if ok:
        cond, body = pairs.a[2][0].a[0]
        el = [x for x in subterms(body) if x.op == "elem" and x.a[0] is ordered]
        ok = not cond.a[0] and bool(el) and second(body, 0) is mk("field", el[0], "0") and is_hash(second(body, 1), mk("field", el[0], "1"))
    b.ob("J23", "each", ok, "the pairs inserted are %s instead of the set's, each key once, in order, with the last value's hash" % show(pairs)[:200], "pairs")
    hc = mk("field", kv0, "1")
    ok = cache is hc or is_some(cache) and hash_maps(s, cache, src, L) or cache.op == "adt" and cache.a[1] == "None" or none_for_all(src) and named_none(cache)
    b.ob("J23", "each", ok, "another set's hashes are used: %s" % show(cache)[:150], "hashes")
    rest = [x for x in es if x is not e]
    roots = [x for x in rest if short(x) == "set_root_node_key"]
    want = mk("field", payload(call_of(e), "Ok"), "0")
    b.ob("J23", "each", went_well(f, e) and len(roots) == 1 and len(rest) == 1 and roots[0].a[3] is want and es.index(roots[0]) > es.index(e),
         "the root does not become what was inserted", "set-root")
    # each pair's value is staged
    M = loop_with(s, base)
    if not M or M is L:
        b.ob("J23", "each", False, "the values are not staged one by one", "loop")
        return
    init, steps = M.vars[base]
    b.ob("J23", "each", init is X and any(whole(f, M, y) for y in (ordered, kvs)), "not every value is staged", "end")
    for (t, _), bk in zip(steps, M.backs):
        vs, y = peel(t)
        el = [mk("elem", z, M.id) for z in (ordered, kvs)]
        ok = y is base and len(vs) == 1 and short(vs[0]) == "put_value" and same(f, vs[0].a[3], ver) and \
            any(vs[0].a[4] is mk("field", z, "0") and is_some(vs[0].a[5]) and vs[0].a[5].a[3][0] is mk("field", z, "1") for z in el)
        b.ob("J23", "each", ok, "stages %s" % (show(vs[0])[:200] if vs else "no value"), "value")


def is_some(t):
    return t.op == "adt" and t.a[1] == "Some"


def named_none(t):
    return t.op == "adt" and t.a[1] == "None"


def none_for_all(src):
    z = src.a[2] if src.op == "call" and len(src.a) == 3 else None
    return z is not None and z.op == "coll" and len(z.a[2]) == 1 and named_none(z.a[2][0].a[0][1])


def hash_maps(s, cache, src, L):
    """the hashes given for this set, at the same position"""
    x = cache.a[3][0]
    return x.op == "elem" and x.a[1] == L.id


def check_batch_sets(ctx, want):
    sets(ctx, want, "batch_put_value_sets", (I_,), batch_inner, batch_source)


# ---------------------------------------------------------------- one level of the batch walk
class BL(B):
    def __init__(self, ctx, want, s):
        B.__init__(self, ctx, want, s.fn.qual)
        self.s = s
        ps = plain(s)
        self.kind = s.fn.name
        if self.kind == E_:
            self.selfv, self.nk, self.version, self.leaf, self.kvs, self.depth, self.cache, self.tc = ps
        else:
            self.selfv, self.nk, self.version, self.kvs, self.depth, self.cache, self.tc = ps
            self.leaf = None
        self.node = None

    def abs(self, f):
        return jins.Abs(self.s, None, self.nk, mk("sym", "none"), f, self.tc)

    # keys: (version, how the path comes about)
    def key(self, t):
        if t is self.nk:
            # new subtrees are asked for under this version (shown for each call)
            return (mk("field", t, "version") if self.kind == I_ else self.version, ("here",))
        if t.op == "upd" and t.a[1] == ("f", "version"):
            return (t.a[2], self.key(t.a[0])[1])
        if t.op == "adt" and t.a[0] == jread.NKEY:
            p = proj(t, "nibble_path")
            if p is mk("field", self.nk, "nibble_path"):
                return (proj(t, "version"), ("here",))
            if empty_path(p):
                return (proj(t, "version"), ("root",))
        if named(t, "gen_child_node_key"):
            return (t.a[2], ("below", self.key(t.a[1])[1], self.nibble(t.a[3])))
        if t.op == "field" and t.a[1] == "0" and t.a[0].op == "field" and t.a[0].a[0].op == "as" and named(t.a[0].a[0].a[0], I_, S_, E_):
            R = t.a[0].a[0].a[0]
            return (self.version, self.key(R.a[2])[1])      # the walk below stages at the place asked for, in this version
        raise jins.Unknown("node key %s" % show(t)[:160])

    def nibble(self, t):
        """("pair", i): of the i-th pair's key at this depth; ("leaf",): of the existing leaf's"""
        if not named(t, "get_nibble") or len(t.a) != 3:
            raise jins.Unknown("nibble %s" % show(t)[:160])
        if t.a[2] is not self.depth:
            return ("other depth", t)
        k = t.a[1]
        if self.leaf is not None and k is mk("field", mk("field", self.leaf, "key_hash"), "0"):
            return ("leaf",)
        if k.op == "field" and k.a[0].op == "field" and k.a[0].a[0].op == "idx" and k.a[0].a[0].a[0] is self.kvs and k.a[0].a[1] == "0" and k.a[1] == "0":
            return ("pair", k.a[0].a[0].a[1])
        raise jins.Unknown("nibble %s" % show(t)[:160])


def sk(k):
    return "(%s, %s)" % (show(k[0])[:60], sp(k[1]))


def sp(p):
    if p[0] == "below":
        return "%s+%s" % (sp(p[1]), {"leaf": "the leaf's nibble", "pair": "the pairs' nibble"}.get(p[2][0], "a nibble at another depth"))
    return {"here": "this path", "root": "the empty path"}[p[0]]


def batch_level(ctx, want, name):
    s = ctx.summ(T_ + name, opq((I_, S_, E_)), "jins", fine=2)
    v = BL(ctx, want, s)
    n = {}
    for o in s.outs:
        try:
            k = batch_outcome(v, o)
        except jins.Unknown as e:
            k = "?"
            ctx.ob("understood", v.q, False, "a path handles something in a way that is not understood: %s" % e, "batch")
        n[k] = n.get(k, 0) + 1
    for k in {I_: ("Internal", "Leaf", "Null"), S_: ("one", "more"), E_: ("one", "more")}[name]:
        ctx.floor("understood", v.q, n.get(k, 0), 1, "outcomes: " + k)


def batch_outcome(v, o):
    f = o.facts
    if o.kind == "panic":
        v.ob("J23", "total", allowed_panic(v, f), "panics on a path that can be taken", "panic")
        return "panic"
    if is_err(o):
        v.ob("J23", "result", failing(o) or null_inside(v, f), "fails on a path on which nothing went wrong", "err")
        return "err"
    x = ok_val(o)
    rk, rn = second(x, 0), second(x, 1)
    es, base = peel(final(o, v.tc))
    here = (v.version, ("here",))
    if v.kind == I_:
        G = [t for t in f.dom if named(t, "get_node") and t.a[1] is v.tc and t.a[2] is v.nk]
        node = payload(G[0], "Ok") if G else None
        k = next((k for k in ("Internal", "Leaf", "Null") if node is not None and f.truth(mk_isv(node, k)) is True), None)
        if k is None:
            v.ob("J23", "understood", False, "a path does not say what was read", "entry")
            return "?"
        v.node = node
        if k == "Internal":
            many(v, o, es, base, rk, rn, here, [("del", (mk("field", v.nk, "version"), ("here",)), False)], payload(node, "Internal"))
            return k
        if k == "Leaf":
            marks(v, es[:1], [("del", (mk("field", v.nk, "version"), ("here",)), True)])
            passed_on(v, f, es[1:], base, rk, rn, E_, here, leaf=payload(node, "Leaf"))
            return k
        t = f.truth(mk_eq(mk("field", v.nk, "version"), v.version))
        if t is None:
            v.ob("J08", "marked", False, "an empty root is handled without looking at its version", "null")
            return k
        marks(v, es[:-1], [("del", (mk("field", v.nk, "version"), ("here",)), False)] if t else [])
        passed_on(v, f, es[-1:], base, rk, rn, S_, (v.version, ("root",)))
        return k
    if any(named(t, "next") for t in f.dom):
        many(v, o, es, base, rk, rn, here, [], None)
        return "more"
    # a single pair
    kv = mk_idx(v.kvs, INT0)
    one = f.truth(mk_eq(mk("call", "len", v.kvs), INT1))
    if v.kind == E_:
        q = f.truth(mk_eq(mk("field", v.leaf, "key_hash"), mk("field", kv, "0")))
        v.ob("J23", "case", one is True and q is True, "several pairs, or another key, replace the leaf", "one")
        keys = (mk("field", v.leaf, "key_hash"), mk("field", kv, "0"))
    else:
        v.ob("J23", "case", one is True, "several pairs become a single leaf", "one")
        keys = (mk("field", kv, "0"),)
    leaf = lambda t: t.op == "adt" and t.a[0].endswith("::Node") and t.a[1] == "Leaf" and proj(t.a[3][0], "key_hash") in keys and proj(t.a[3][0], "value_hash") is mk("field", kv, "1")
    staged(v, es, [(here, leaf, "the pair's leaf")])
    v.ob("J23", "result", base is v.tc, "works on another staging area", "base")
    v.ob("J23", "result", v.key(rk) == here and leaf(rn), "reports %s at %s" % (show(rn)[:80], sk(v.key(rk))), "result")
    return "one"


def null_inside(v, f):
    for t in f.dom:
        if named(t, "get_node") and f.truth(mk_isv(payload(t, "Ok"), "Null")) is True:
            p = mk("field", v.nk, "nibble_path")
            for g, b in f.d.items():
                if any(x is mk("field", p, "num_nibbles") or named(x, "is_empty", "num_nibbles") and len(x.a) == 2 and x.a[1] is p for x in subterms(g)):
                    return f.truth(mk_eq(mk("field", p, "num_nibbles"), INT0)) is False or (named(g, "is_empty") and b is False) or f.truth(mk_le(INT1, mk("field", p, "num_nibbles"))) is True
    return False


def allowed_panic(v, f):
    """no pairs; a hash that is not among those given; an empty tree reported from below (which never is)"""
    n = mk("call", "len", v.kvs)
    if f.truth(mk_eq(n, INT0)) is True or f.truth(mk_le(n, INT0)) is True:
        return True
    for t in f.dom:
        if named(t, "get") and f.truth(mk_isv(t, "None")) is True and t.a[1] is payload(v.cache, "Some"):
            return True
        if t.op == "field" and t.a[1] == "1" and t.a[0].op == "field" and t.a[0].a[0].op == "as" and named(t.a[0].a[0].a[0], I_, S_, E_) and f.truth(mk_isv(t, "Null")) is True:
            return True
    return False


def marks(v, es, want):
    got = []
    for e in es:
        if short(e) != "delete_node":
            v.ob("J23", "staged", False, "stages with %s" % short(e), "extra")
            continue
        if not is_int(e.a[4]):
            raise jins.Unknown("whether a leaf is marked")
        got.append(("del", v.key(e.a[3]), bool(e.a[4].a[0])))
    v.ob("J08", "marked", got == want, "marks %s" % (", ".join(sk(g[1]) + (" as a leaf" if g[2] else "") for g in got) or "nothing"), "del")


def passed_on(v, f, es, base, rk, rn, to, at, leaf=None):
    ok = len(es) == 1 and short(es[0]) == to and peel_last(es[0], base, v)
    v.ob("J23", "descends", ok, "does not hand the pairs on", "pass")
    if not ok:
        return
    e = es[0]
    a = list(e.a[2:])
    want = [v.selfv, None, v.version] + ([leaf] if leaf is not None else []) + [v.kvs, v.depth, v.cache]
    ok = all(w is None or x is w or same(f, x, w) for x, w in zip(a, want)) and went_well(f, e)
    v.ob("J23", "descends", ok, "hands on %s" % ", ".join(show(x)[:60] for x in a[:-1]), "args")
    v.ob("J05", "addressed", v.key(a[1]) == at, "hands on to %s" % sk(v.key(a[1])), "pass")
    r = payload(call_of(e), "Ok")
    v.ob("J23", "result", rk is mk("field", r, "0") and rn is mk("field", r, "1"), "reports something else than was built", "result")


def peel_last(e, base, v):
    return base is v.tc


def staged(v, es, want):
    """es are the staging of the nodes wanted, in some order"""
    left = list(want)
    for e in es:
        if short(e) != "put_node" or e.a[1] != 0:
            v.ob("J23", "staged", False, "stages with %s" % short(e), "extra")
            continue
        k = v.key(e.a[3])
        m = [w for w in left if w[0] == k and w[1](e.a[4])]
        if not m:
            v.ob("J23", "staged", False, "stages %s at %s" % (show(e.a[4])[:120], sk(k)), "put")
        else:
            left.remove(m[0])
    for w in left:
        v.ob("J23", "staged", False, "does not stage %s at %s" % (w[2], sk(w[0])), "put")
    v.ob("J23", "staged", True, "", "staged")


def many(v, o, es, base, rk, rn, here, pre, inner):
    """the ranges of pairs with the same nibble are taken one after the other"""
    f, s = o.facts, v.s
    L = loop_with(s, base)
    if L is None:
        v.ob("J23", "understood", False, "the pairs are not taken range by range", "loop")
        return
    its = [x for x, (i, _) in L.vars.items() if named(i, "new") and "NibbleRangeIterator" in i.a[0]]
    if len(its) != 1:
        v.ob("J23", "understood", False, "the pairs are not taken range by range", "ranges")
        return
    it, = its
    init = L.vars[it][0]
    v.ob("J23", "ranges", init.a[1] is v.kvs and init.a[2] is v.depth, "the ranges are those of %s at depth %s" % (show(init.a[1])[:60], show(init.a[2])[:40]), "init")
    nx = [t for t in f.dom if named(t, "next") and t.a[1] is it]
    v.ob("J23", "ranges", bool(nx) and f.truth(mk_isv(nx[0], "None")) is True, "ends before every range was taken", "end")
    ch = [x for x, (i, st) in L.vars.items() if st and all(any(y.op == "eff" and y.a[0] in KIDOPS for y in subterms(z)) for z, _ in st) and x is not base]
    if len(ch) != 1:
        raise jins.Unknown("the children built")
    ch, = ch
    i0 = L.vars[ch][0]
    if inner is not None:
        ok = i0 is mk("field", inner, "children")
    else:
        ok = no_children(i0)
    v.ob("J23", "staged", ok, "the children start from %s" % show(i0)[:100], "children")
    b0, bb = peel(L.vars[base][0])
    v.ob("J23", "staged", bb is v.tc, "works on another staging area", "base")
    marks(v, b0, pre)
    flag = None
    for x, (i, st) in L.vars.items():
        if x.op == "lv" and i in (mk_bool(True), mk_bool(False)):
            flag = (x, i)
    for i, bk in enumerate(L.backs):
        one_range(v, L, i, bk, it, ch, base, inner, flag)
    v.ctx.floor("ranges", v.q, len(L.backs), 2, "rounds over the ranges")
    # what is staged at the end
    want = []
    kids, rest = ch, None
    leafkey = (v.version, ("below", ("here",), ("leaf",)))
    new = [t for t in subterms(rn) if t.op == "call" and t.a[0] in NEWS]
    if len(new) != 1 or not (rn.op == "adt" and rn.a[1] == "Internal" and rn.a[3][0] is new[0]):
        v.ob("J23", "result", False, "reports %s" % show(rn)[:120], "node")
        return
    kids = new[0].a[1]
    if v.kind == E_:
        if flag is None:
            t = some_share(v, f)
            if t is None:
                raise jins.Unknown("whether some range shares the leaf's nibble")
        else:
            t = f.truth(flag[0])
        if t is None:
            v.ob("J23", "case", False, "the leaf is %s whether or not some pairs share its nibble" % ("added" if kids is not ch else "left out"), "isolated")
            return
        alone = (not t) if flag is None else t is (flag[1] is mk_bool(True))
        if alone:
            ok = effof(kids, "insert") and kids.a[2] is ch and v.nibble(kids.a[3]) == ("leaf",) and leaf_child(v, kids.a[4])
            v.ob("J23", "staged", ok, "the leaf is not made a child under its nibble", "isolated")
            want.append((leafkey, lambda t: t.op == "adt" and t.a[0].endswith("::Node") and t.a[1] == "Leaf" and t.a[3][0] is v.leaf, "the leaf that was there"))
        else:
            v.ob("J23", "staged", kids is ch, "the children become %s" % show(kids)[:100], "children-end")
    else:
        v.ob("J23", "staged", kids is ch, "the children become %s" % show(kids)[:100], "children-end")
    want.append((here, lambda t: t is rn, "the inner node"))
    staged(v, es, want)
    for e in es:
        v.ob("J23", "staged", went_well(f, e), "goes on after a failure", "fail")
    v.ob("J23", "result", v.key(rk) == here, "reports the node at %s" % sk(v.key(rk)), "result")


def some_share(v, f):
    """does the path know whether some pair has the leaf's nibble? (found by a look through all the pairs)"""
    def same_nibble(g, lid):
        if g.op != "eq" or len(g.a) != 2:
            return False
        k = [x for x in subterms(g) if x.op == "elem" and x.a[0] is v.kvs and x.a[1] == lid]
        if len(k) != 1:
            return False
        one = mk("call", strip(g.a[0]).a[0], mk("field", mk("field", k[0], "0"), "0"), v.depth) if named(strip(g.a[0]), "get_nibble") else None
        xs = [strip(x) for x in g.a]
        leaf = [x for x in xs if named(x, "get_nibble") and x.a[2] is v.depth and x.a[1] is mk("field", mk("field", v.leaf, "key_hash"), "0")]
        return len(leaf) == 1 and one in xs and one is not leaf[0]
    for lid, L in v.s.I.loops.items():
        if not L.backs or not any(i is v.kvs for i, _ in L.vars.values()):
            continue
        if any(b and same_nibble(g, lid) for g, b in f.d.items()):
            return True
        if exhausted(v.s.I, f, lid, v.kvs) and all(any(b is False and same_nibble(g, lid) for g, b in k.facts.d.items()) for k in L.backs):
            return False
    return None


def mk_bool(x):
    return INT1 if x else INT0


def no_children(t):
    return t.op == "adt" and t.a[0].endswith("Children") and is_int(proj(t, "num_children")) and proj(t, "num_children").a[0] == 0 and proj(t, "children").op in ("call", "default", "arr", "rep", "repeat")


def leaf_child(v, c):
    if c.op != "adt":
        return False
    h, ty = proj(c, "hash"), proj(c, "node_type")
    return h.op == "call" and short(mk("eff", h.a[0])) == "hash" and h.a[1] in (v.leaf,) and proj(c, "version") is v.version and ty.op == "adt" and ty.a[1] == "Leaf"


def one_range(v, L, i, bk, it, ch, base, inner, flag):
    f = bk.facts
    nx = [t for t in f.dom if named(t, "next") and t.a[1] is it and f.truth(mk_isv(t, "Some")) is True]
    step = lambda x: L.vars[x][1][i][0]
    if len(nx) != 1:
        v.ob("J23", "ranges", False, "a round without a range", "next")
        return
    r = payload(nx[0])
    v.ob("J23", "ranges", effof(step(it), "next") and step(it).a[2] is it, "skips ranges", "skip")
    lo, hi = mk("field", r, "0"), mk("field", r, "1")
    es, b = peel(step(base))
    if b is not base or len(es) != 1 or short(es[0]) not in (I_, S_, E_):
        v.ob("J23", "descends", False, "a range is handled by %s" % ", ".join(short(e) for e in es), "calls")
        return
    e, = es
    to = short(e)
    a = list(e.a[2:])
    v.ob("J23", "descends", went_well(f, e), "goes on after a failure", "fail")
    nk2, ver = a[1], a[2]
    pairs, depth, cache = a[-4], a[-3], a[-2]
    nib = lambda n: n[0] == "pair" and (n[1] is lo or n[1] is hi)
    k = v.key(nk2)
    under = k[1][0] == "below" and k[1][1] == ("here",) and nib(k[1][2])
    ok = ver is v.version and same(f, depth, add(v.depth, INT1)) and cache is v.cache and a[0] is v.selfv
    v.ob("J23", "descends", ok, "descends at version %s, depth %s" % (show(ver)[:50], show(depth)[:50]), "args")
    ok = pairs.op == "slice" and pairs.a[0] is v.kvs and same(f, pairs.a[1], lo) and same(f, pairs.a[2], add(hi, INT1))
    v.ob("J23", "descends", ok, "descends with %s instead of the range's pairs" % show(pairs)[:120], "pairs")
    own = (v.version,)
    if inner is not None:
        slot = [t for t in f.dom if t.op == "idx" and t.a[0] is mk("field", mk("field", inner, "children"), "children")]
        if len(slot) != 1:
            raise jins.Unknown("which child is there")
        n = jread.uncast(slot[0].a[1])
        n = n.a[0] if n.op == "field" and n.a[1] == "0" else n
        v.ob("J23", "descends", nib(v.nibble(n)), "looks at another child", "slot")
        there = f.truth(mk_isv(slot[0], "Some"))
        if there is None:
            v.ob("J23", "case", False, "descends without looking whether a child is there", "there")
            return
        v.ob("J23", "descends", to == (I_ if there else S_), "a range under %s is handled by %s" % ("a child" if there else "an empty place", to), "which")
        want = mk("field", payload(slot[0]), "version") if there else v.version
        v.ob("J05", "addressed", under and k[0] is want, "descends to %s" % sk(k), "rec")
    else:
        if v.kind == E_:
            q = bucket(v, f, lo, hi)
            if q is None:
                v.ob("J23", "case", False, "the range is handled without comparing its nibble with the leaf's", "bucket")
                return
            v.ob("J23", "descends", to == (E_ if q else S_), "a range %s the leaf's nibble is handled by %s" % ("with" if q else "without", to), "which")
            if to == E_:
                v.ob("J23", "descends", a[3] is v.leaf, "another leaf is passed on", "leaf")
            if flag is not None:
                x, i0 = flag
                t = step(x)
                want = (INT0 if i0 is INT1 else INT1) if q else x
                v.ob("J23", "case", t is want, "forgets whether some range shared the leaf's nibble", "flag")
            under = under or k[1] == ("below", ("here",), ("leaf",)) and q
        else:
            v.ob("J23", "descends", to == S_, "a range is handled by %s" % to, "which")
        v.ob("J05", "addressed", under and k[0] is v.version, "descends to %s" % sk(k), "rec")
    R = payload(call_of(e), "Ok")
    ops = step(ch)
    ok = effof(ops, "insert") and ops.a[2] is ch
    v.ob("J23", "staged", ok, "the children become %s" % show(ops)[:120], "child")
    if ok:
        n = v.nibble(ops.a[3])
        v.ob("J23", "staged", nib(n) or n == ("leaf",) and v.kind == E_ and to == E_, "the new child is put under another nibble", "under")
        child_of(v, f, ops.a[4], R, nk2)


def bucket(v, f, lo, hi):
    for g, b in f.d.items():
        if g.op == "eq" and len(g.a) == 2:
            try:
                x, y = v.nibble(strip(g.a[0])), v.nibble(strip(g.a[1]))
            except jins.Unknown:
                continue
            if {x[0], y[0]} == {"leaf", "pair"} and (x if x[0] == "pair" else y)[1] in (lo, hi):
                return b
    return None


def strip(t):
    return t.a[0] if t.op == "field" and t.a[1] == "0" and named(t.a[0], "get_nibble") else t


def child_of(v, f, c, R, nk2):
    if c.op != "adt":
        v.ob("J23", "staged", False, "the new child is %s" % show(c)[:100], "childnew")
        return
    key, node = mk("field", R, "0"), mk("field", R, "1")
    h = proj(c, "hash")
    given = f.truth(mk_isv(v.cache, "Some"))
    if given is True:
        x = h
        paths = (mk("field", key, "nibble_path"), mk("field", nk2, "nibble_path"))
        ok = x.op == "field" and x.a[0].op == "as" and named(x.a[0].a[0], "get") and x.a[0].a[0].a[1] is payload(v.cache) and x.a[0].a[0].a[2] in paths
    else:
        ok = given is False and named(h, "hash") and h.a[1] is node
    v.ob("J23", "staged", ok, "the new child's hash is %s" % show(h)[:120], "hash")
    v.ob("J23", "staged", proj(c, "version") is v.version, "the new child's version is %s" % show(proj(c, "version"))[:60], "version")
    v.ob("J23", "staged", v.abs(f).fits(node, proj(c, "node_type")), "the new child's type is %s" % show(proj(c, "node_type"))[:60], "type")


def check_batch(ctx, want):
    for n in (I_, S_, E_):
        batch_level(ctx, want, n)
    check_batch_sets(ctx, want)


# ---------------------------------------------------------------- the children of a node
def check_children(ctx):
    for name in ("insert", "remove"):
        q = "jmt::node_type::Children::" + name
        s = ctx.summ(q, None, "j23", fine=True)
        a = plain(s)
        i = mk("field", a[1], "0")
        arr, n = mk("field", a[0], "children"), mk("field", a[0], "num_children")
        slot = mk("idx", arr, i)
        new = Some(a[2]) if name == "insert" else NONE
        for o in s.outs:
            if o.kind != "ret":
                ctx.ob("children", q, False, "can panic", "panic")
                continue
            for there in ("Some", "None"):
                f = narrow(o.facts, [(mk_isv(slot, there), True)])
                if f is None:
                    continue
                e = final(o, a[0])
                want = add(n, INT1) if name == "insert" and there == "None" else sub(n, INT1) if name == "remove" and there == "Some" else n
                x = f_(e, "children")
                ok = x is mk("upd", arr, ("i", i), new) or x is arr and name == "remove" and there == "None"
                ctx.ob("children", q, ok, "the children become %s" % show(x)[:100], there + "-array")
                ctx.ob("children", q, same(f, f_(e, "num_children"), want), "with a child %s, their number becomes %s" % ("there" if there == "Some" else "missing", show(f_(e, "num_children"))[:60]), there + "-count")
    for name in ("new_impl", "new_migration", "new"):
        q = jread.T_.split("tree::")[0] + "node_type::InternalNode::" + name
        s = ctx.summ(q, None, "j15s", fine=True)
        x = plain(s)[0]
        n = mk("field", x, "num_children")
        for o in s.outs:
            if o.kind == "panic" or is_err(o):
                few = o.facts.truth(mk_le(n, INT1)) is True
                els = [t for t in o.facts.dom if t.op == "field" and t.a[1] == "node_type"]
                ok = few and (o.facts.truth(mk_le(n, INT0)) is True or any(o.facts.dom[t] == frozenset(["Leaf"]) for t in els) or
                              any(k.op == "more" and v is False and jins.tagno(k.a[1]) == 0 for k, v in o.facts.d.items()))
                ctx.ob("children", q, ok, "refuses children that are neither none nor a single leaf", "refuse")
                continue
            v = o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Ok" else o.val
            ctx.ob("children", q, proj(v, "children") is x, "the node's children are %s" % show(proj(v, "children"))[:80], "new")
    ctx.rule("children", "a node keeps the children it is given, and their array and number change together")


RULES = {"understood": "every path is brought into normal form", "staged": "the nodes staged, their keys and the children recorded for them", "result": "what is reported to the level above, and to the caller",
         "case": "which case a path treats is decided by its conditions", "descends": "what is handed to the level below", "total": "no path panics, except for pairs or hashes that are not there",
         "ranges": "each range of pairs with the same nibble is taken once", "each": "each pair of a set is applied, in order, to what the ones before it left", "frozen": "each set is frozen as its own version",
         "addressed": "the node the walk goes on to", "marked": "the nodes marked as replaced"}


def run(ctx, want):
    for k, t in RULES.items():
        ctx.rule(k, t)
    check_sets(ctx, want)
    check_batch(ctx, want)


def check_content(ctx):
    run(ctx, "J23")
    check_children(ctx)


def check_marks(ctx):
    run(ctx, "J08")


def check_addressing(ctx):
    run(ctx, "J05")
